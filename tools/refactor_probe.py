import re,sys
R='/tmp/ref/include/gcem_incl/'
def ed(f,*prs):
    p=R+f; s=open(p).read()
    for o,n in prs:
        if s.count(o)<1: print('MISS',f,repr(o[:60])); continue
        s=s.replace(o,n,1)
    open(p,'w').write(s)
# exp: helper extracted from both versions
ed('exp.hpp',('#if __cplusplus >= 201402L // C++14 version','''template<typename T>
constexpr
T
exp_cf_term(const T x, const int depth, const T inner)
noexcept
{
    return( T(1) + x/T(depth - 1) - x/depth/inner );
}

#if __cplusplus >= 201402L // C++14 version'''),
('''    int depth = GCEM_EXP_MAX_ITER_SMALL - 1;
    T res = T(1);

    while (depth > depth_end - 1) {
        res = T(1) + x/T(depth - 1) - x/depth/res;

        --depth;
    }
''','''    T res = T(1);

    for (int depth = GCEM_EXP_MAX_ITER_SMALL - 1; depth >= depth_end; --depth) {
        res = exp_cf_term(x, depth, res);
    }
'''),('T(1) + x/T(depth - 1) - x/depth/exp_cf_recur(x,depth+1) :','exp_cf_term(x, depth, exp_cf_recur(x,depth+1)) :'))
# gcd: C++14 loop
ed('gcd.hpp',('''template<typename T>
constexpr
T
gcd_recur(const T a, const T b)
noexcept
{
    return( b == T(0) ? a : gcd_recur(b, T(a % b)) );
}
''','''#if __cplusplus >= 201402L
template<typename T>
constexpr
T
gcd_recur(const T a, const T b)
noexcept
{
    T u = a, v = b;
    while (v != T(0)) { const T w = T(u % v); u = v; v = w; }
    return u;
}
#else
template<typename T>
constexpr
T
gcd_recur(const T a, const T b)
noexcept
{
    return( b != T(0) ? gcd_recur(b, T(a % b)) : a );
}
#endif
'''))
# sqrt: helper + reordered bands
ed('sqrt.hpp',('''template<typename T>
constexpr
T
sqrt_recur(''','''template<typename T>
constexpr
T
sqrt_newton_step(const T x, const T xn)
noexcept
{
    return T(0.5)*(xn + x/xn);
}

template<typename T>
constexpr
T
sqrt_recur('''),('sqrt_recur(x, T(0.5)*(xn + x/xn), count+1)','sqrt_recur(x, sqrt_newton_step(x,xn), count+1)'),
('sqrt_simplify(x / T(1e+08), T(1e+04) * m_val)','sqrt_simplify(x / T(1e+08), m_val * T(1e+04))'))
ed('floor.hpp',('return( (x < T(0)) && (x < x_whole) );','return( (x < x_whole) && !(x >= T(0)) ? 1 : 0 );'),('abs(x) >= 8388608.f ? \\','!(abs(x) < 8388608.f) ? \\'))
ed('tanh.hpp',('''                x < T(0) ? \\
                    - tanh_begin(-x) : 
                      tanh_begin( x) );''','''                T(sgn(x)) * tanh_begin(abs(x)) );'''))
ed('lgamma.hpp',('return( T(GCEM_LOG_SQRT_2PI) + log(T(lgamma_coef_term(x))) );','return( log(T(lgamma_coef_term(x))) + T(GCEM_LOG_SQRT_2PI) );'),('return( lgamma_term_1(x) + lgamma_term_2(x) );','return( lgamma_term_2(x) + lgamma_term_1(x) );'),
('(x + T(0.5))*log(x + T(5.2421875L)) - (x + T(5.2421875L))','log(x + T(5.2421875L))*(x + T(0.5)) - (T(5.2421875L) + x)'))
ed('log.hpp',('''constexpr
long double
log_mantissa_integer(const int x)
noexcept
{''','''static constexpr long double log_mantissa_table[11] = {
    0.0L, 0.0L,
    0.6931471805599453094172321214581765680755L,
    1.0986122886681096913952452369225257046475L,
    1.3862943611198906188344642429163531361510L,
    1.6094379124341003746007593332261876395256L,
    1.7917594692280550008124773583807022727230L,
    1.9459101490553133051053527434431797296371L,
    2.0794415416798359282516963643745297042265L,
    2.1972245773362193827904904738450514092950L,
    2.3025850929940456840179914546843642076011L
};

constexpr
long double
log_mantissa_integer(const int x)
noexcept
{
    return( (x >= 0 && x <= 10) ? log_mantissa_table[x] : 0.0L );
}

constexpr
long double
log_mantissa_integer_old(const int x)
noexcept
{'''))
ed('incomplete_gamma.hpp',('''template<typename T>
constexpr
T
incomplete_gamma_quad_recur(const T lb, const T ub, const T a, const T lg_term, const int counter)
noexcept
{
    return( counter < 49 ? \\
            // if 
                incomplete_gamma_quad_fn(incomplete_gamma_quad_inp_vals(lb,ub,counter),a,lg_term) \\
                    * incomplete_gamma_quad_weight_vals(lb,ub,counter) \\
                    + incomplete_gamma_quad_recur(lb,ub,a,lg_term,counter+1) :
            // else
                incomplete_gamma_quad_fn(incomplete_gamma_quad_inp_vals(lb,ub,counter),a,lg_term) \\
                    * incomplete_gamma_quad_weight_vals(lb,ub,counter) );
}
''','''template<typename T>
constexpr
T
incomplete_gamma_quad_term(const T lb, const T ub, const T a, const T lg_term, const int counter)
noexcept
{
    return( incomplete_gamma_quad_fn(incomplete_gamma_quad_inp_vals(lb,ub,counter),a,lg_term) \\
                * incomplete_gamma_quad_weight_vals(lb,ub,counter) );
}

#if __cplusplus >= 201402L
template<typename T>
constexpr
T
incomplete_gamma_quad_recur(const T lb, const T ub, const T a, const T lg_term, const int counter)
noexcept
{
    T res = T(0);
    for (int i = 49; i >= counter; --i) { res = incomplete_gamma_quad_term(lb,ub,a,lg_term,i) + res; }
    return res;
}
#else
template<typename T>
constexpr
T
incomplete_gamma_quad_recur(const T lb, const T ub, const T a, const T lg_term, const int counter)
noexcept
{
    return( counter < 49 ? \\
                incomplete_gamma_quad_term(lb,ub,a,lg_term,counter) + incomplete_gamma_quad_recur(lb,ub,a,lg_term,counter+1) :
                incomplete_gamma_quad_term(lb,ub,a,lg_term,counter) );
}
#endif
'''))
ed('pow_integral.hpp',('''                (is_odd(exp_term) ? \\
                    pow_integral_compute_recur(T1(base*base),T1(val*base),T2(exp_term/2)) :
                    pow_integral_compute_recur(T1(base*base),val,T2(exp_term/2))) :''','''                pow_integral_compute_recur(T1(base*base), is_odd(exp_term) ? T1(val*base) : val, T2(exp_term/2)) :'''))
ed('max.hpp',('return( y < x ? x : y );','return( x > y ? x : y );'))
ed('atan.hpp',('''    while (depth > order_begin) {
        res += atan_series_order_calc(xx, pow(x,4*depth-5), depth);

        --depth;
    }''','''    for (; depth > order_begin; --depth) {
        res = res + atan_series_order_calc(xx, pow(x,4*depth-5), depth);
    }'''),('return( x > T(2.5) ? atan_series_main(x) : atan_cf_main(x) );','return( x <= T(2.5) ? atan_cf_main(x) : atan_series_main(x) );'))
ed('tan.hpp',('- 1/z + (z/3 + (pow_integral(z,3)/45 + (2*pow_integral(z,5)/945 + pow_integral(z,7)/4725)))','z*(T(1)/3 + z*z*(T(1)/45 + z*z*(T(2)/945 + z*z/4725))) - 1/z'))
ed('erf.hpp',('T(2) * x * ( exp(-x*x) / T(GCEM_SQRT_PI) ) \\\n                / erf_cf_small_recur(x*x,1)','(T(2) * x * exp(-x*x)) / (T(GCEM_SQRT_PI) * erf_cf_small_recur(x*x,1))'))
ed('incomplete_beta.hpp',('''    return( // tolerance check
                abs(c_j*d_j - T(1)) < GCEM_INCML_BETA_TOL ? f_j*c_j*d_j :
            // max_iter check
                depth < GCEM_INCML_BETA_MAX_ITER ? \\
                    // if
                        incomplete_beta_cf(a,b,z,c_j,d_j,f_j*c_j*d_j,depth+1) :
                    // else 
                        f_j*c_j*d_j );''','''    return( (abs(c_j*d_j - T(1)) >= GCEM_INCML_BETA_TOL && depth < GCEM_INCML_BETA_MAX_ITER) ? \\
                incomplete_beta_cf(a,b,z,c_j,d_j,f_j*c_j*d_j,depth+1) :
                f_j*c_j*d_j );'''))
