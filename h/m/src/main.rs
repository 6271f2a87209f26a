#![allow(unexpected_cfgs)]
use symrt::*;
mod min;
use min::*;
harnesses!(m_cf, m_cf2, m_ex, m_ex2, m_scope, m_scope2, m_one);
