#![allow(unexpected_cfgs)]
use symrt::*;
mod gen;
mod lit;
mod ptot;
mod prec;
mod rt;
mod span;
use lit::*;
use ptot::*;
use prec::*;
use rt::*;
use span::*;
harnesses!(ptot_ctx1, ptot_ctx2, ptot_uni, ptot_tok2, ptot_tok3, lit_str1, lit_str2, lit_inner, lit_tpl, lit_num, lit_num2, lit_num3, lit_big, lit_regex, rt_expr2, rt_atom, rt_stmt, rt_mod, rt_jsx, rt_type, rt_ts, rt_asi, rt_strc, rt_str1, rt_num, prec_tok3, prec_tok4, prec_nl, prec_ops, prec_end, span_expr2, span_stmt, span_mod, span_jsx, span_type, span_ts);
