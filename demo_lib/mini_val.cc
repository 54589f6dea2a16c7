// A tiny PDDL reader behind the mini VAL header, for demonstration programs.
#include <VAL/FlexLexer.h>
#include <VAL/ptree.h>
#include <VAL/typecheck.h>

#include <algorithm>
#include <cctype>
#include <iterator>
#include <map>
#include <string>
#include <vector>

int yydebug = 0;
int line_no = 1;
const char* current_filename = "";

namespace VAL {
extern parse_category* top_thing;
extern yyFlexLexer* yfl;
bool TypeChecker::typecheckDomain() { return a_->the_domain != nullptr; }
bool TypeChecker::typecheckProblem() { return a_->the_problem != nullptr; }
}  // namespace VAL

namespace {
using namespace VAL;

struct Sexp {
  bool atom = false;
  std::string s;
  std::vector<Sexp> kids;
};

struct SyntaxError {};

std::vector<std::string> Tokens(std::istream& is) {
  std::string text((std::istreambuf_iterator<char>(is)), {});
  std::vector<std::string> out;
  std::string cur;
  auto flush = [&] {
    if (!cur.empty()) out.push_back(cur);
    cur.clear();
  };
  for (size_t i = 0; i < text.size(); i++) {
    const char c = text[i];
    if (c == ';') {
      while (i < text.size() && text[i] != '\n') i++;
      flush();
    } else if (c == '(' || c == ')') {
      flush();
      out.push_back(std::string(1, c));
    } else if (std::isspace(static_cast<unsigned char>(c))) {
      flush();
    } else {
      cur += c;
    }
  }
  flush();
  return out;
}

Sexp Read(const std::vector<std::string>& t, size_t& i) {
  if (i >= t.size()) throw SyntaxError{};
  Sexp e;
  if (t[i] == "(") {
    i++;
    while (i < t.size() && t[i] != ")") e.kids.push_back(Read(t, i));
    if (i >= t.size()) throw SyntaxError{};
    i++;
    return e;
  }
  if (t[i] == ")") throw SyntaxError{};
  e.atom = true;
  e.s = t[i++];
  return e;
}

struct Builder {
  analysis* a;
  std::map<std::string, pddl_type*> types;
  std::map<std::string, const_symbol*> consts;
  std::map<std::string, pred_symbol*> preds;

  pddl_type* Type(const std::string& n) {
    auto it = types.find(n);
    if (it != types.end()) return it->second;
    auto* t = new pddl_type(n);
    types[n] = t;
    if (a->the_domain->types == nullptr) a->the_domain->types = new pddl_type_list;
    a->the_domain->types->push_back(t);
    return t;
  }
  static std::string Strip(const std::string& s) {
    return (!s.empty() && s[0] == '?') ? s.substr(1) : s;
  }
  // Parses "a b - t c - u" into (name, type) pairs.
  std::vector<std::pair<std::string, pddl_type*>> Typed(const std::vector<Sexp>& v, size_t from) {
    std::vector<std::pair<std::string, pddl_type*>> out;
    size_t first = 0;
    for (size_t i = from; i < v.size(); i++) {
      if (v[i].s == "-") {
        pddl_type* t = Type(v.at(++i).s);
        for (; first < out.size(); first++) out[first].second = t;
      } else {
        out.emplace_back(Strip(v[i].s), nullptr);
      }
    }
    return out;
  }
  var_symbol_list* Vars(const std::vector<Sexp>& v, size_t from) {
    auto* l = new var_symbol_list;
    for (auto& p : Typed(v, from)) {
      auto* s = new var_symbol(p.first);
      s->type = p.second;
      l->push_back(s);
    }
    return l;
  }
  using Scope = std::vector<var_symbol*>;
  static Scope Extend(Scope s, const var_symbol_list& l) {
    s.insert(s.end(), l.begin(), l.end());
    return s;
  }
  pred_symbol* Pred(const std::string& n) {
    auto& p = preds[n];
    if (p == nullptr) p = new pred_symbol(n);
    return p;
  }
  proposition* Prop(const Sexp& e, const Scope& scope) {
    auto* p = new proposition;
    p->head = Pred(e.kids.at(0).s);
    p->args = new parameter_symbol_list;
    for (size_t i = 1; i < e.kids.size(); i++) {
      const std::string& n = e.kids[i].s;
      if (n[0] == '?') {
        parameter_symbol* found = nullptr;
        for (auto it = scope.rbegin(); it != scope.rend(); ++it) {
          if ((*it)->getNameRef() == n.substr(1)) { found = *it; break; }
        }
        if (found == nullptr) throw SyntaxError{};
        p->args->push_back(found);
      } else {
        auto it = consts.find(n);
        if (it == consts.end()) throw SyntaxError{};
        p->args->push_back(it->second);
      }
    }
    return p;
  }
  goal_list* Goals(const Sexp& e, const Scope& scope) {
    auto* l = new goal_list;
    for (size_t i = 1; i < e.kids.size(); i++) l->push_back(Goal(e.kids[i], scope));
    return l;
  }
  goal* Goal(const Sexp& e, const Scope& scope) {
    if (e.kids.empty()) {
      auto* g = new conj_goal;
      g->goals = new goal_list;
      return g;
    }
    const std::string& h = e.kids[0].s;
    if (h == "and") {
      auto* g = new conj_goal;
      g->goals = Goals(e, scope);
      return g;
    }
    if (h == "or") {
      auto* g = new disj_goal;
      g->goals = Goals(e, scope);
      return g;
    }
    if (h == "not") {
      auto* g = new neg_goal;
      g->gl = Goal(e.kids.at(1), scope);
      return g;
    }
    if (h == "imply") return new imply_goal;
    if (h == "forall" || h == "exists") {
      auto* g = new qfied_goal;
      g->qfier = h == "forall" ? E_FORALL : E_EXISTS;
      g->vars = Vars(e.kids.at(1).kids, 0);
      g->gl = Goal(e.kids.at(2), Extend(scope, *g->vars));
      return g;
    }
    auto* g = new simple_goal;
    g->prop = Prop(e, scope);
    return g;
  }
  void Effect(const Sexp& e, const Scope& scope, effect_lists* out) {
    if (e.kids.empty()) return;
    const std::string& h = e.kids[0].s;
    if (h == "and") {
      for (size_t i = 1; i < e.kids.size(); i++) Effect(e.kids[i], scope, out);
    } else if (h == "not") {
      auto* s = new simple_effect;
      s->prop = Prop(e.kids.at(1), scope);
      out->del_effects.push_back(s);
    } else if (h == "forall") {
      auto* f = new forall_effect;
      f->vars = Vars(e.kids.at(1).kids, 0);
      f->operand = new effect_lists;
      Effect(e.kids.at(2), Extend(scope, *f->vars), f->operand);
      out->forall_effects.push_back(f);
    } else if (h == "when") {
      auto* c = new cond_effect;
      c->cond = Goal(e.kids.at(1), scope);
      c->effects = new effect_lists;
      Effect(e.kids.at(2), scope, c->effects);
      out->cond_effects.push_back(c);
    } else {
      auto* s = new simple_effect;
      s->prop = Prop(e, scope);
      out->add_effects.push_back(s);
    }
  }
  const_symbol_list* Consts(const std::vector<Sexp>& v, const_symbol_list* l) {
    if (l == nullptr) l = new const_symbol_list;
    for (auto& p : Typed(v, 1)) {
      auto* s = new const_symbol(p.first);
      s->type = p.second;
      consts[p.first] = s;
      l->push_back(s);
    }
    return l;
  }
  void Op(operator_* op, const Sexp& e, bool is_axiom) {
    op->name = new operator_symbol(is_axiom ? "axiom" : e.kids.at(1).s);
    op->parameters = new var_symbol_list;
    op->effects = new effect_lists;
    Scope scope;
    for (size_t i = is_axiom ? 1 : 2; i + 1 < e.kids.size(); i += 2) {
      const std::string& k = e.kids[i].s;
      const Sexp& v = e.kids[i + 1];
      if (k == ":parameters" || k == ":vars") {
        op->parameters = Vars(v.kids, 0);
        scope = Extend({}, *op->parameters);
      } else if (k == ":precondition" || k == ":context") {
        op->precondition = Goal(v, scope);
      } else if (k == ":effect" || k == ":implies") {
        Effect(v, scope, op->effects);
      }
    }
    if (op->precondition == nullptr) op->precondition = Goal(Sexp{}, scope);
    a->the_domain->ops->push_back(op);
  }
  void Domain(const Sexp& e) {
    auto* d = new domain;
    a->the_domain = d;
    d->ops = new operator_list;
    d->drvs = new derivations_list;
    d->predicates = new pred_decl_list;
    Type("object");
    for (size_t i = 1; i < e.kids.size(); i++) {
      const Sexp& k = e.kids[i];
      const std::string& h = k.kids.at(0).s;
      if (h == "domain") d->name = k.kids.at(1).s;
      if (h == ":types") {
        for (auto& p : Typed(k.kids, 1)) {
          Type(p.first)->type = p.second != nullptr ? p.second : Type("object");
        }
      }
      if (h == ":constants") d->constants = Consts(k.kids, d->constants);
      if (h == ":predicates") {
        for (size_t j = 1; j < k.kids.size(); j++) {
          auto* p = new pred_decl;
          p->head = Pred(k.kids[j].kids.at(0).s);
          p->args = Vars(k.kids[j].kids, 1);
          d->predicates->push_back(p);
        }
      }
      if (h == ":action") Op(new action, k, false);
      if (h == ":axiom") Op(new axiom, k, true);
      if (h == ":derived") {
        auto* r = new derivation_rule;
        const auto& hd = k.kids.at(1).kids;
        var_symbol_list* vars = Vars(hd, 1);
        r->head = new proposition;
        r->head->head = Pred(hd.at(0).s);
        r->head->args = new parameter_symbol_list;
        for (var_symbol* v : *vars) r->head->args->push_back(v);
        r->body = Goal(k.kids.at(2), Extend({}, *vars));
        d->drvs->push_back(r);
      }
    }
  }
  void Problem(const Sexp& e) {
    auto* p = new problem;
    a->the_problem = p;
    p->objects = new const_symbol_list;
    p->initial_state = new effect_lists;
    if (a->the_domain->constants != nullptr) {
      for (const_symbol* c : *a->the_domain->constants) consts[c->getName()] = c;
    }
    for (pddl_type* t : *a->the_domain->types) types[t->getName()] = t;
    for (size_t i = 1; i < e.kids.size(); i++) {
      const Sexp& k = e.kids[i];
      const std::string& h = k.kids.at(0).s;
      if (h == "problem") p->name = k.kids.at(1).s;
      if (h == ":domain") p->domain_name = k.kids.at(1).s;
      if (h == ":objects") p->objects = Consts(k.kids, p->objects);
      if (h == ":init") {
        for (size_t j = 1; j < k.kids.size(); j++) Effect(k.kids[j], {}, p->initial_state);
      }
      if (h == ":goal") p->the_goal = Goal(k.kids.at(1), {});
    }
    if (p->the_goal == nullptr) p->the_goal = Goal(Sexp{}, {});
  }
};
}  // namespace

int yyparse() {
  try {
    const std::vector<std::string> t = Tokens(*VAL::yfl->in_);
    size_t i = 0;
    const Sexp e = Read(t, i);
    Builder b{VAL::current_analysis, {}, {}, {}};
    bool is_domain = false;
    for (const Sexp& k : e.kids) {
      if (!k.kids.empty() && k.kids[0].s == "domain") is_domain = true;
    }
    if (is_domain) {
      b.Domain(e);
    } else {
      b.Problem(e);
    }
  } catch (const SyntaxError&) {
    return 1;
  } catch (const std::out_of_range&) {
    return 1;
  }
  return 0;
}
