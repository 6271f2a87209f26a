#![allow(unexpected_cfgs)]
use symrt::*;
mod diag;
mod cf;
use cf::*;
use diag::*;
harnesses!(dg_span, dg_labels, dg_opts, dg_files, dg_order, dg_sort, dg_path, dg_path2, cf_shard, cf_apply, cf_exp, cf_fail, cf_bad);
