mod rel;
mod st;
mod ty;
use rel::*;
use st::*;
use symrt::harnesses;
harnesses!(rel_tsc, rel_variance, rel_lattice, rel_trans, st_join, st_ids, st_order, st_shape);
