// The real header, not the stand-in that async evaluation gets.
#include SHIM15_REPO_EXPR_EVAL_H
