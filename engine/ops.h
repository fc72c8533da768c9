#pragma once
enum {
  OP_CONST=1,OP_VAR,
  OP_ADD,OP_SUB,OP_MUL,OP_UDIV,OP_SDIV,OP_UREM,OP_SREM,OP_AND,OP_OR,OP_XOR,OP_SHL,OP_LSHR,OP_ASHR,
  OP_EQ,OP_NE,OP_ULT,OP_ULE,OP_UGT,OP_UGE,OP_SLT,OP_SLE,OP_SGT,OP_SGE,
  OP_UMIN,OP_UMAX,OP_SMIN,OP_SMAX,OP_USUBSAT,OP_UADDSAT,
  OP_UADDO,OP_SADDO,OP_USUBO,OP_SSUBO,OP_UMULO,OP_SMULO,
  OP_CONCAT,OP_EXTRACT,OP_ZEXT,OP_SEXT,OP_TRUNC,OP_ZEXTTRUNC,OP_BITCAST,OP_ITE,
  OP_ABS,OP_BSWAP,OP_CTPOP,OP_CTLZ,OP_CTTZ,OP_BITREV,
  // floating point (FP-sorted nodes)
  OP_FADD,OP_FSUB,OP_FMUL,OP_FDIV,OP_FREM,OP_FNEG,OP_FABS,OP_FSQRT,OP_FFLOOR,OP_FCEIL,OP_FTRUNC,OP_FRINT,OP_FROUND,OP_FMIN,OP_FMAX,OP_FCOPYSIGN,
  OP_FPCONV,OP_FPTOSI,OP_FPTOUI,OP_SITOFP,OP_UITOFP,
  OP_FBITS,   // FP -> BV
  OP_FFROM,   // BV -> FP
  OP_FDY,     // BV n (signed) * 2^-aux -> FP (exact)
  OP_FTABLE,  // exact table: value looked up by equality on child expr
  OP_LOG,OP_EXP,OP_LOG2,OP_LOG10,OP_EXP2,OP_LOG1P,OP_EXPM1,OP_POW,OP_LGAMMA,OP_TGAMMA,OP_SIN,OP_COS,OP_TANH,OP_ATAN2,
  OP_FCMP=200 // +predicate 0..15
};
