#![allow(unexpected_cfgs)]
mod graphs;
mod prog;
mod ssa;
use graphs::*;
use prog::*;
use ssa::*;
use symrt::harnesses;
harnesses!(gr_dom, gr_dom5, gr_live, gr_regs, ss_flow, ss_touch, ss_const, ss_phis, sp_expr, sp_loop, sp_label, sp_switch, ss_flow2, ss_const2, sp_expr2, sp_loop2, sp_label2, sp_switch2, sp_text, sp_text2, sp_stmts);
