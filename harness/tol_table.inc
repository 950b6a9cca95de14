// Limits of the normalised error per function, region and type {float, double, long double}:
// about four times the largest value seen in calibration runs (10^8 evaluations), never below 4 to 8; long double log and what
// is built on it twice that value: it is a constant part of the result (10^32 of type double, 7e-19 per unit of the logarithm).
{ "exp", "all", { 12.4, 11.6, 13.6 } },
{ "expm1", "small", { 8, 8, 8 } },
{ "expm1", "large", { 12.4, 12.4, 12.4 } },
{ "log", "near1", { 8, 8, 8 } },
{ "log", "far", { 8, 8, 16 } },
{ "log2", "near1", { 8, 8, 8 } },
{ "log2", "far", { 8, 8, 16 } },
{ "log10", "near1", { 8, 8, 8 } },
{ "log10", "far", { 8, 8, 16 } },
{ "log1p", "small", { 8, 8, 8 } },
{ "log1p", "far", { 8, 8, 16 } },
{ "sqrt", "all", { 8, 14.4, 52 } },
{ "inv_sqrt", "all", { 6, 6, 6 } },
{ "hypot", "all", { 8, 8, 8 } },
{ "pow", "all", { 11.2, 11.2, 20 } },
{ "powi", "all", { 6, 6, 6 } },
{ "powi", "range", { 0, 0, 0 } },
{ "sin", "core", { 6, 6, 6 } },
{ "sin", "wide", { 6, 6, 6 } },
{ "cos", "core", { 6, 6, 6 } },
{ "cos", "wide", { 6, 6, 6 } },
{ "tan", "core", { 6, 6, 6 } },
{ "tan", "wide", { 16.4, 7.6, 22 } },
{ "asin", "all", { 8, 8, 68 } },
{ "acos", "all", { 8, 8, 148 } },
{ "atan", "cf", { 8, 8, 164 } },
{ "atan", "series", { 8, 8, 208 } },
{ "atan2", "all", { 8, 8, 192 } },
{ "sinh", "all", { 11.6, 11.2, 10 } },
{ "cosh", "all", { 12.4, 11.2, 10.8 } },
{ "tanh", "all", { 8, 8, 8 } },
{ "asinh", "all", { 8, 8, 16 } },
{ "acosh", "all", { 8, 8, 16 } },
{ "atanh", "all", { 8, 8, 8 } },
{ "lgamma", "all", { 26.8, 31.2, 1212 } },
{ "tgamma", "pos", { 27.6, 32, 1204 } },
{ "tgamma", "neg", { 10.4, 13.6, 688 } },
{ "factorial", "all", { 26, 36.8, 38 } },
{ "factorial", "neg", { 26, 36.8, 1200 } },
{ "lbeta", "all", { 40, 56, 1780 } },
{ "beta", "all", { 40, 60, 1776 } },
{ "log_binomial_coef", "all", { 48, 45.6, 44.8 } },
{ "lmgamma", "all", { 22, 27.2, 1212 } },
{ "erf", "cf", { 20, 23.2, 84 } },
{ "erf", "large", { 8, 8, 3696 } },
{ "erf_inv", "all", { 1, 1, 1 } },
{ "erf_inv", "core", { 12.8, 13.6, 11.2 } },
{ "erf_inv", "tail", { 19.6, 21.2, 1800 } },
{ "incomplete_beta", "lo", { 22.4, 26.8, 4340 } },
{ "incomplete_beta", "mid", { 4, 4, 240 } },
{ "incomplete_beta", "hi", { 4, 4, 48 } },
{ "incomplete_beta_inv", "all", { 1, 1, 1 } },
{ "incomplete_beta_inv", "lo", { 26, 26, 4340 } },
{ "incomplete_beta_inv", "mid", { 20, 22, 3400 } },
{ "incomplete_beta_inv", "hi", { 4, 4, 200 } },
{ "incomplete_gamma", "cf1", { 48, 33.6, 620 } },
{ "incomplete_gamma", "cf2", { 4, 4, 4 } },
{ "incomplete_gamma", "quad", { 4, 4, 17.6 } },
{ "incomplete_gamma", "quadhi", { 4, 4, 16 } },
{ "incomplete_gamma_inv", "all", { 1, 1, 1 } },
{ "incomplete_gamma_inv", "lo", { 28, 24, 572 } },
{ "incomplete_gamma_inv", "mid", { 9.6, 9.2, 10.4 } },
{ "incomplete_gamma_inv", "hi", { 4, 4, 16.8 } },
