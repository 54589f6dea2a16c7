// Minimal stand-in for the parts of VAL's ptree.h that /repo/src uses.
//
// The VAL submodule is not present offline, so the sources that include it
// cannot be type-checked without it.  The declarations below reproduce the
// *names and types* the repository relies on; the analyser only needs those to
// resolve callees.  The bodies are functional, so the same header lets the
// real sources be compiled into small demonstration programs.
#ifndef VERIF_VAL_PTREE_H_
#define VERIF_VAL_PTREE_H_

#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <ostream>
#include <string>
#include <vector>

// The real header has these at global scope and the sources rely on it.
using std::ostream;
using std::string;

namespace VAL {

class parse_category {
 public:
  virtual ~parse_category() {}
};

class symbol : public parse_category {
 public:
  symbol() {}
  explicit symbol(const std::string& n) : name(n) {}
  std::string getName() const { return name; }
  const std::string& getNameRef() const { return name; }

  std::string name;
};

class pddl_type;
template <typename T>
class typed_symbol_list;
using pddl_type_list = class typed_symbol_list<pddl_type>;

class pddl_typed_symbol : public symbol {
 public:
  pddl_typed_symbol() {}
  explicit pddl_typed_symbol(const std::string& n) : symbol(n) {}
  pddl_type* type = nullptr;
  pddl_type_list* either_types = nullptr;
};

class parameter_symbol : public pddl_typed_symbol {
 public:
  using pddl_typed_symbol::pddl_typed_symbol;
};
class var_symbol : public parameter_symbol {
 public:
  using parameter_symbol::parameter_symbol;
};
class const_symbol : public parameter_symbol {
 public:
  using parameter_symbol::parameter_symbol;
};
class pddl_type : public pddl_typed_symbol {
 public:
  using pddl_typed_symbol::pddl_typed_symbol;
};
class pred_symbol : public symbol {
 public:
  using symbol::symbol;
};
class operator_symbol : public symbol {
 public:
  using symbol::symbol;
};

template <typename T>
class typed_symbol_list : public std::list<T*>, public parse_category {};

using var_symbol_list = class typed_symbol_list<var_symbol>;
using parameter_symbol_list = class typed_symbol_list<parameter_symbol>;
using const_symbol_list = class typed_symbol_list<const_symbol>;

template <typename T>
class pc_list : public std::list<T>, public parse_category {};

class proposition : public parse_category {
 public:
  pred_symbol* head = nullptr;
  parameter_symbol_list* args = nullptr;
};

class pred_decl : public parse_category {
 public:
  pred_symbol* head = nullptr;
  var_symbol_list* args = nullptr;
  const pred_symbol* getPred() const { return head; }
  const var_symbol_list* getArgs() const { return args; }
};
using pred_decl_list = pc_list<pred_decl*>;

class goal : public parse_category {};
using goal_list = pc_list<goal*>;

enum quantifier { E_FORALL, E_EXISTS };

class con_goal : public goal {};
class constraint_goal : public con_goal {};
class preference : public con_goal {};
class simple_goal : public goal {
 public:
  proposition* prop = nullptr;
  const proposition* getProp() const { return prop; }
};
class qfied_goal : public goal {
 public:
  quantifier qfier = E_FORALL;
  var_symbol_list* vars = nullptr;
  goal* gl = nullptr;
  quantifier getQuantifier() const { return qfier; }
  const var_symbol_list* getVars() const { return vars; }
  const goal* getGoal() const { return gl; }
};
class conj_goal : public goal {
 public:
  goal_list* goals = nullptr;
  const goal_list* getGoals() const { return goals; }
};
class disj_goal : public goal {
 public:
  goal_list* goals = nullptr;
  const goal_list* getGoals() const { return goals; }
};
class timed_goal : public goal {};
class imply_goal : public goal {};
class neg_goal : public goal {
 public:
  goal* gl = nullptr;
  const goal* getGoal() const { return gl; }
};
class comparison : public goal {};

class effect_lists;

class simple_effect : public parse_category {
 public:
  proposition* prop = nullptr;
};
class forall_effect : public parse_category {
 public:
  effect_lists* operand = nullptr;
  var_symbol_list* vars = nullptr;
  const var_symbol_list* getVarsList() const { return vars; }
  const effect_lists* getEffects() const { return operand; }
};
class cond_effect : public parse_category {
 public:
  goal* cond = nullptr;
  effect_lists* effects = nullptr;
  const goal* getCondition() const { return cond; }
  const effect_lists* getEffects() const { return effects; }
};
class effect_lists : public parse_category {
 public:
  pc_list<simple_effect*> add_effects;
  pc_list<simple_effect*> del_effects;
  pc_list<forall_effect*> forall_effects;
  pc_list<cond_effect*> cond_effects;
};

class operator_ : public parse_category {
 public:
  operator_symbol* name = nullptr;
  var_symbol_list* parameters = nullptr;
  goal* precondition = nullptr;
  effect_lists* effects = nullptr;
};
class action : public operator_ {};
class axiom : public operator_ {};
using operator_list = pc_list<operator_*>;

class derivation_rule : public parse_category {
 public:
  proposition* head = nullptr;
  goal* body = nullptr;
  const proposition* get_head() const { return head; }
  const goal* get_body() const { return body; }
};
using derivations_list = pc_list<derivation_rule*>;

using pddl_req_flag = unsigned long;
inline std::string pddl_req_flags_string(pddl_req_flag) { return ""; }

class domain : public parse_category {
 public:
  operator_list* ops = nullptr;
  derivations_list* drvs = nullptr;
  pddl_req_flag req = 0;
  std::string name;
  pddl_type_list* types = nullptr;
  const_symbol_list* constants = nullptr;
  pred_decl_list* predicates = nullptr;
};

class problem : public parse_category {
 public:
  std::string name;
  std::string domain_name;
  pddl_req_flag req = 0;
  const_symbol_list* objects = nullptr;
  effect_lists* initial_state = nullptr;
  goal* the_goal = nullptr;
};

class parse_error_list {
 public:
  void report() {}
};

class analysis {
 public:
  domain* the_domain = nullptr;
  problem* the_problem = nullptr;
  parse_error_list error_list;
};

extern analysis* current_analysis;

}  // namespace VAL

// NOLINTNEXTLINE
extern int line_no;

#endif  // VERIF_VAL_PTREE_H_
