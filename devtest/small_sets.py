H="include/symbolic/utils/hash_set.h"
EDITS=[("a1","bad:C01",H,[("        if (idx_bucket_ == buckets_->size()) return;\n","",0)]),
("a2","bad:C01",H,[("        if (idx_bucket_ == buckets_->size()) return;\n","",1)]),
("a3","bad:C01",H,[("        idx_in_bucket_ = 0;\n        if (idx_bucket_ == buckets_->size()) return;\n","        if (idx_bucket_ == buckets_->size()) return;\n        idx_in_bucket_ = 0;\n",0)]),
("a4","bad:C01",H,[("        idx_in_bucket_ = 0;\n        if (idx_bucket_ == buckets_->size()) return;\n","        if (idx_bucket_ == buckets_->size()) return;\n        idx_in_bucket_ = 0;\n",1)]),
("a5","bad:C01",H,[("        if (idx_bucket_ == buckets_->size()) return;\n","        if (idx_bucket_ > buckets_->size()) return;\n",1)]),
("g1","good",H,[("      while (idx_in_bucket_ >= bucket->size()) {\n        idx_bucket_++;\n        idx_in_bucket_ = 0;\n        if (idx_bucket_ == buckets_->size()) return;\n        bucket = &(*buckets_)[idx_bucket_];\n      }","      while (idx_bucket_ < buckets_->size() && idx_in_bucket_ >= (*buckets_)[idx_bucket_].size()) {\n        idx_bucket_++;\n        idx_in_bucket_ = 0;\n      }",0)]),
("g2","good",H,[("      while (idx_in_bucket_ >= bucket->size()) {\n        idx_bucket_++;\n        idx_in_bucket_ = 0;\n        if (idx_bucket_ == buckets_->size()) return;\n        bucket = &(*buckets_)[idx_bucket_];\n      }","      for (; idx_bucket_ != buckets_->size(); idx_bucket_++, idx_in_bucket_ = 0) {\n        if (idx_in_bucket_ < (*buckets_)[idx_bucket_].size()) break;\n      }",1)]),
("e1","bad:C01",H,[("const bool erased = GetBucket(element).erase(element);","const bool erased = GetBucket(element).insert(element);")]),
("e2","bad:C01",H,[("    std::swap(buckets_, old_buckets);\n","")]),
("e3","bad:C01","include/symbolic/utils/unique_vector.h",[("Base::end(), val);","Base::begin(), val);",0)]),
("e4","bad:C01","include/symbolic/utils/unique_vector.h",[("Base::begin(), Base::end(), val);","Base::end(), Base::end(), val);",1)]),
("e5","bad:C01","include/symbolic/utils/unique_vector.h",[("Base::begin(), Base::end(), val);","Base::begin(), Base::end() - 1, val);",1)]),
("e6","bad:C01","include/symbolic/utils/unique_vector.h",[("return it != Base::end() &&","return it != Base::begin() &&")]),
("e7","bad:C01","include/symbolic/utils/unique_vector.h",[("return insert(T(args...))","return erase(T(args...))")]),
("e8","bad:C01","include/symbolic/state.h",[("bool is_changed = false;","bool is_changed = true;")]),
("e9","bad:C01","include/symbolic/state.h",[("it != last; ++it","it != last; --it")]),
("e10","bad:C05","include/symbolic/state.h",[("    return insert(Proposition(args...));","    return erase(Proposition(args...));",1)]),
("e11","bad:C04,C02","include/symbolic/state.h",[("lhs.pos_ == rhs.pos_ && lhs.neg_ == rhs.neg_","lhs.pos_ == rhs.pos_ && lhs.neg_ == rhs.pos_")]),
("e12","bad:C04,C02","include/symbolic/state.h",[("lhs.pos_ != rhs.pos_ || lhs.neg_ != rhs.neg_","lhs.pos_ != rhs.pos_ || lhs.pos_ != rhs.neg_")]),
("e13","bad:C04,C02","include/symbolic/state.h",[("std::tie(lhs.pos_, lhs.neg_) < std::tie(rhs.pos_, rhs.neg_)","std::tie(lhs.pos_, lhs.neg_) < std::tie(rhs.neg_, rhs.pos_)")]),
("e14","bad:C14","include/symbolic/state.h",[("return it + n;","return it - n;")]),
("e15","bad:C04,C02,C01","include/symbolic/utils/hash_set.h",[("return lhs.buckets_ < rhs.buckets_;","return lhs.buckets_ <= rhs.buckets_;")]),
("e16","bad:C04,C02","include/symbolic/state.h",[("    return !(lhs == rhs);","    return !(lhs != rhs);")]),
]
