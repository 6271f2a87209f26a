#![allow(unexpected_cfgs)]
use symrt::*;
mod fold;
use fold::*;
harnesses!(fo_num, fo_int, fo_bits, fo_mix, fo_list, fo_big, fo_str, fo_strcmp, fo_un, fo_math, fo_mathlib, fo_val, fo_concat);
