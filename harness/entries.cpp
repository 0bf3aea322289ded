// Entry points over the public interface of ggdatetime, one per contract.
// Nothing here computes anything: every entry unpacks plain integers, calls one
// public operation of the library and packs what can be observed.  The same text
// is (a) compiled to LLVM IR and verified together with /repo's functions and
// (b) compiled into the native replay driver.
//   in : integers   fin : doubles   str : NUL-terminated string
//   out: integers   fout: doubles
#include <string>
#include <cstring>
#include "dtfund.hpp"
#include "dtcalendar.hpp"
#include "datetime_read.hpp"
#include "datetime_write.hpp"
using namespace ngpt;

#define ARGS const long* in, const double* fin, const char* str, long* out, double* fout
#define E(name) extern "C" void name(ARGS); \
  void name([[maybe_unused]] const long* in, [[maybe_unused]] const double* fin, \
            [[maybe_unused]] const char* str, [[maybe_unused]] long* out, [[maybe_unused]] double* fout)

using s = seconds; using ms = milliseconds; using us = microseconds;
using I = modified_julian_day;
static inline year Y(long v) { return year{static_cast<int>(v)}; }
static inline month M(long v) { return month{static_cast<int>(v)}; }
static inline day_of_month D(long v) { return day_of_month{static_cast<int>(v)}; }
static inline day_of_year DOY(long v) { return day_of_year{static_cast<int>(v)}; }
static inline hours H(long v) { return hours{static_cast<int>(v)}; }
static inline minutes MI(long v) { return minutes{static_cast<int>(v)}; }
#define U(x) ((x).as_underlying_type())
#define OUTDT(k, d) do { out[k] = U((d).mjd()); out[(k)+1] = U((d).sec()); } while (0)
#define OUTIV(k, d) do { out[k] = U((d).days()); out[(k)+1] = U((d).sec()); } while (0)
#define OUTYMD(k, d) do { out[k] = U((d).__year); out[(k)+1] = U((d).__month); out[(k)+2] = U((d).__dom); } while (0)
#define OUTYD(k, d) do { out[k] = U((d).__year); out[(k)+1] = U((d).__doy); } while (0)
#define OUTHMS(k, t) do { out[k] = U(std::get<0>(t)); out[(k)+1] = U(std::get<1>(t)); \
  out[(k)+2] = U(std::get<2>(t)); out[(k)+3] = std::get<3>(t); } while (0)
#define DT(S, k) datetime<S>{I{in[k]}, S{in[(k)+1]}}
#define FOR3(X) X(s) X(ms) X(us)
#define FORACC(X) X(s,s) X(s,ms) X(s,us) X(ms,ms) X(ms,us) X(us,us)
#define FOR9(X) X(s,s) X(s,ms) X(s,us) X(ms,s) X(ms,ms) X(ms,us) X(us,s) X(us,ms) X(us,us)

// ------------------------------------------------------------ calendar
E(e_cal2mjd)   { out[0] = U(cal2mjd(Y(in[0]), M(in[1]), D(in[2]))); }
E(e_mjd_ymd)   { out[0] = U((modified_julian_day{Y(in[0]), M(in[1]), D(in[2])})); }
E(e_ydoy2mjd)  { out[0] = U(ydoy2mjd(Y(in[0]), DOY(in[1]))); }
E(e_mjd_ydoy)  { out[0] = U((modified_julian_day{Y(in[0]), DOY(in[1])})); }
E(e_to_ymd)    { const I d{in[0]}; auto r = d.to_ymd(); OUTYMD(0, r); out[3] = U(d); }
E(e_to_ydoy)   { const I d{in[0]}; auto r = d.to_ydoy(); OUTYD(0, r); out[2] = U(d); }
E(e_ymd_ydoy)  { const ymd_date d{Y(in[0]), M(in[1]), D(in[2])}; auto r = d.to_ydoy(); OUTYD(0, r); OUTYMD(2, d); }
E(e_ydoy_ymd)  { const ydoy_date d{Y(in[0]), DOY(in[1])}; auto r = d.to_ymd(); OUTYMD(0, r); OUTYD(3, d); }
E(e_is_leap)   { out[0] = is_leap(static_cast<int>(in[0])); out[1] = Y(in[0]).is_leap(); }
E(e_dom_valid) { out[0] = D(in[2]).is_valid(Y(in[0]), M(in[1]));
                 const ymd_date d{Y(in[0]), M(in[1]), D(in[2])}; out[1] = d.is_valid(); OUTYMD(2, d); }
E(e_doy_valid) { out[0] = DOY(in[1]).is_valid(Y(in[0]));
                 const ydoy_date d{Y(in[0]), DOY(in[1])}; out[1] = d.is_valid(); OUTYD(2, d); }
E(e_mon_valid) { out[0] = M(in[0]).is_valid(); }
E(e_week_valid){ out[0] = gps_week{in[0]}.is_valid(); }
E(e_dat_ym)    { out[0] = dat(Y(in[0]), M(in[1])); }
E(e_dat_mjd)   { out[0] = dat(I{in[0]}); }
// round trips through two conversions
E(e_rt_mjd)    { auto r = I{in[0]}.to_ymd(); out[0] = U(cal2mjd(r.__year, r.__month, r.__dom)); }
E(e_rt_ymd)    { auto r = cal2mjd(Y(in[0]), M(in[1]), D(in[2])).to_ymd(); OUTYMD(0, r); }
E(e_rt_ydoy)   { auto r = ydoy2mjd(Y(in[0]), DOY(in[1])).to_ydoy(); OUTYD(0, r); }

#define X(S) \
E(e_as_ymd_##S)  { const auto d = DT(S, 0); auto r = d.as_ymd(); OUTYMD(0, r); OUTDT(3, d); } \
E(e_as_ydoy_##S) { const auto d = DT(S, 0); auto r = d.as_ydoy(); OUTYD(0, r); OUTDT(2, d); } \
E(e_dat_##S)     { out[0] = dat(DT(S, 0)); } \
/* constructors: in = y m d (h mi) amount */ \
E(e_c_ymd_##S)    { datetime<S> d{Y(in[0]), M(in[1]), D(in[2])}; OUTDT(0, d); } \
E(e_c_ymdh_##S)   { datetime<S> d{Y(in[0]), M(in[1]), D(in[2]), H(in[3])}; OUTDT(0, d); } \
E(e_c_ymdhm_##S)  { datetime<S> d{Y(in[0]), M(in[1]), D(in[2]), H(in[3]), MI(in[4])}; OUTDT(0, d); } \
E(e_c_ydoy_##S)   { datetime<S> d{Y(in[0]), DOY(in[1])}; OUTDT(0, d); } \
E(e_c_ydoyhm_##S) { datetime<S> d{Y(in[0]), DOY(in[1]), H(in[2]), MI(in[3])}; OUTDT(0, d); } \
E(e_c_def_##S)    { datetime<S> d; OUTDT(0, d); } \
E(e_c_mjd_##S)    { datetime<S> d{I{in[0]}, H(0)}; OUTDT(0, d); } \
E(e_c_mjds_##S)   { datetime<S> d{I{in[0]}, S{in[1]}}; OUTDT(0, d); } \
E(e_c_mjdhms_##S) { datetime<S> d{I{in[0]}, H(in[1]), MI(in[2]), S{in[3]}}; OUTDT(0, d); } \
E(e_c_ymdf_##S)   { datetime<S> d{Y(in[0]), M(in[1]), D(in[2]), H(in[3]), MI(in[4]), fin[0]}; OUTDT(0, d); } \
E(e_c_ydoyf_##S)  { datetime<S> d{Y(in[0]), DOY(in[1]), H(in[2]), MI(in[3]), fin[0]}; OUTDT(0, d); } \
E(e_norm_##S)     { auto d = DT(S, 0); d.normalize(); OUTDT(0, d); } \
/* GPS weeks */ \
E(e_gps_##S)      { datetime<S> d{gps_week{in[0]}, S{in[1]}}; OUTDT(0, d); } \
E(e_wsow_##S)     { const auto d = DT(S, 0); S w{in[2]}; out[0] = U(d.as_gps_wsow(w)); out[1] = U(w); OUTDT(2, d); out[4] = day_of_week<S>(w); } \
E(e_wsowl_##S)    { const auto d = DT(S, 0); long w = in[2]; out[0] = U(d.as_gps_wsow(w)); out[1] = w; OUTDT(2, d); out[4] = day_of_week<s>(s{w}); } \
E(e_dow_##S)      { out[0] = day_of_week<S>(S{in[0]}); } \
E(e_gps_rt_##S)   { const auto d = DT(S, 0); S w{in[2]}; auto k = d.as_gps_wsow(w); datetime<S> r{k, w}; OUTDT(0, r); } \
E(e_add_rem_##S)  { auto d = DT(S, 0); d.add_seconds(S{in[2]}); d.remove_seconds(S{in[2]}); OUTDT(0, d); } \
/* differences, intervals */ \
E(e_dsec_m_##S)   { const auto a = DT(S, 0); const auto b = DT(S, 2); out[0] = U(a.delta_sec(b)); out[1] = U(b.delta_sec(a)); OUTDT(2, a); OUTDT(4, b); } \
E(e_msd_##S)      { out[0] = U(mjd_sec_diff<S>(I{in[0]}, I{in[1]})); out[1] = U(mjd_sec_diff<S>(I{in[1]}, I{in[0]})); } \
E(e_ddate_##S)    { const auto a = DT(S, 0); const auto b = DT(S, 2); auto r = a.delta_date(b); OUTIV(0, r); OUTDT(2, a); OUTDT(4, b); } \
E(e_ddatef_##S)   { const auto a = DT(S, 0); const auto b = DT(S, 2); auto r = delta_date(a, b); OUTIV(0, r); OUTDT(2, a); OUTDT(4, b); } \
E(e_ddate_rt_##S) { const auto a = DT(S, 0); auto b = DT(S, 2); auto r = a.delta_date(b); OUTIV(4, r); b += r; OUTDT(0, b); OUTIV(2, r); } \
E(e_iv_##S)       { datetime_interval<S> v{I{in[0]}, S{in[1]}}; OUTIV(0, v); v.normalize(); OUTIV(2, v); } \
E(e_iv0_##S)      { datetime_interval<S> v; OUTIV(0, v); } \
E(e_iadd_##S)     { auto d = DT(S, 0); const datetime_interval<S> v{I{in[2]}, S{in[3]}}; OUTIV(4, v); d += v; OUTDT(0, d); OUTIV(2, v); } \
E(e_idiv_##S)     { const datetime_interval<S> v{I{in[0]}, S{in[1]}}; auto r = v / static_cast<int>(in[2]); OUTIV(0, r); OUTIV(2, v); } \
E(e_cmp_##S)      { const auto a = DT(S, 0); const auto b = DT(S, 2); out[0] = a == b; out[1] = a != b; out[2] = a < b; out[3] = a <= b; out[4] = a > b; out[5] = a >= b; OUTDT(6, a); OUTDT(8, b); } \
E(e_icmp_##S)     { const datetime_interval<S> a{I{in[0]}, S{in[1]}}; const datetime_interval<S> b{I{in[2]}, S{in[3]}}; out[0] = a == b; out[1] = a != b; out[2] = a < b; out[3] = a <= b; out[4] = a > b; out[5] = a >= b; OUTIV(6, a); OUTIV(8, b); } \
E(e_minmax_##S)   { const auto a = DT(S, 0); out[0] = a > datetime<S>::max(); out[1] = a < datetime<S>::min(); } \
/* amounts */ \
E(e_hms_##S)      { S t{H(in[0]), MI(in[1]), S{in[2]}}; out[0] = U(t); } \
E(e_hmf_##S)      { S t{H(in[0]), MI(in[1]), fin[0]}; out[0] = U(t); } \
E(e_split_##S)    { const S t{in[0]}; auto r = t.to_hmsf(); OUTHMS(0, r); out[4] = U(t); } \
E(e_dsplit_##S)   { const auto d = DT(S, 0); auto r = d.as_hmsf(); OUTHMS(0, r); OUTDT(4, d); } \
E(e_remd_##S)     { S t{in[0]}; out[0] = t.remove_days(); out[1] = U(t); } \
E(e_todays_##S)   { const S t{in[0]}; out[0] = t.to_days(); out[1] = t.more_than_day(); out[2] = U(t); } \
E(e_fdays_##S)    { const S t{in[0]}; fout[0] = t.fractional_days(); out[0] = U(t); } \
E(e_fsecs_##S)    { const S t{in[0]}; fout[0] = t.to_fractional_seconds(); out[0] = U(t); } \
E(e_dmjd_##S)     { const auto d = DT(S, 0); fout[0] = d.as_mjd(); OUTDT(0, d); } \
E(e_imjd_##S)     { const datetime_interval<S> v{I{in[0]}, S{in[1]}}; fout[0] = v.as_mjd(); OUTIV(0, v); } \
E(e_const_##S)    { out[0] = max_days_allowed<S>(); out[1] = S::max_in_day; out[2] = S::template sec_factor<long>(); fout[0] = S::template sec_factor<double>(); } \
E(e_acc_##S)      { const auto d = DT(S, 0); OUTDT(0, d); out[2] = d.sec_as_i(); } \
/* readers: out = day, ticks; stop offset */ \
E(e_rd_ymd_##S)      { auto d = strptime_ymd<S>(str); OUTDT(0, d); } \
E(e_rd_ydoy_##S)     { auto d = strptime_ydoy<S>(str); OUTDT(0, d); } \
E(e_rd_ymd_hms_##S)  { auto d = strptime_ymd_hms<S>(str); OUTDT(0, d); } \
E(e_rd_yod_hms_##S)  { auto d = strptime_yod_hms<S>(str); OUTDT(0, d); } \
E(e_rd_ydoy_hms_##S) { auto d = strptime_ydoy_hms<S>(str); OUTDT(0, d); } \
E(e_rs_ymd_##S)      { char* e = nullptr; auto d = strptime_ymd<S>(str, &e); OUTDT(0, d); out[2] = e - str; } \
E(e_rs_ydoy_##S)     { char* e = nullptr; auto d = strptime_ydoy<S>(str, &e); OUTDT(0, d); out[2] = e - str; } \
E(e_rs_ymd_hms_##S)  { char* e = nullptr; auto d = strptime_ymd_hms<S>(str, &e); OUTDT(0, d); out[2] = e - str; } \
E(e_rs_yod_hms_##S)  { char* e = nullptr; auto d = strptime_yod_hms<S>(str, &e); OUTDT(0, d); out[2] = e - str; } \
E(e_rs_ydoy_hms_##S) { char* e = nullptr; auto d = strptime_ydoy_hms<S>(str, &e); OUTDT(0, d); out[2] = e - str; } \
/* format and read back */ \
E(e_rt_fmt_##S)   { const auto d = DT(S, 0); std::string t = strftime_ymd_hmfs(d, static_cast<char>(in[2])); auto r = strptime_ymd_hms<S>(t.c_str()); OUTDT(0, r); }
FOR3(X)
#undef X

// the text itself is the observation
#define T(name) extern "C" void name(ARGS, std::string* txt); \
  void name([[maybe_unused]] const long* in, [[maybe_unused]] const double* fin, [[maybe_unused]] const char* str, \
            [[maybe_unused]] long* out, [[maybe_unused]] double* fout, std::string* txt)
#define X(S) \
T(t_hmfs_##S)  { const auto d = DT(S, 0); *txt = strftime_ymd_hmfs(d, static_cast<char>(in[2])); OUTDT(0, d); } \
T(t_hms_##S)   { const auto d = DT(S, 0); *txt = strftime_ymd_hms(d, static_cast<char>(in[2])); OUTDT(0, d); } \
T(t_hmfs0_##S) { const auto d = DT(S, 0); *txt = strftime_ymd_hmfs(d); OUTDT(0, d); } \
T(t_hms0_##S)  { const auto d = DT(S, 0); *txt = strftime_ymd_hms(d); OUTDT(0, d); } \
T(t_str_##S)   { const auto d = DT(S, 0); *txt = d.stringify(); OUTDT(0, d); }
FOR3(X)
#undef X

#define X(S, Q) \
E(e_c_ymdT_##S##_##Q)    { datetime<S> d{Y(in[0]), M(in[1]), D(in[2]), Q{in[3]}}; OUTDT(0, d); } \
E(e_c_ymdhmT_##S##_##Q)  { datetime<S> d{Y(in[0]), M(in[1]), D(in[2]), H(in[3]), MI(in[4]), Q{in[5]}}; OUTDT(0, d); } \
E(e_c_ydoyT_##S##_##Q)   { datetime<S> d{Y(in[0]), DOY(in[1]), Q{in[2]}}; OUTDT(0, d); } \
E(e_c_ydoyhmT_##S##_##Q) { datetime<S> d{Y(in[0]), DOY(in[1]), H(in[2]), MI(in[3]), Q{in[4]}}; OUTDT(0, d); } \
E(e_addm_##S##_##Q)      { const auto a = DT(S, 0); auto r = a.add(I{in[2]}, Q{in[3]}); OUTDT(0, r); OUTDT(2, a); } \
E(e_op_##S##_##Q)        { const Q t{in[0]}; S r(t); out[0] = U(r); out[1] = U(t); out[2] = U(static_cast<S>(t)); }
FORACC(X)
#undef X

#define X(S, Q) \
E(e_adds_##S##_##Q) { auto d = DT(S, 0); const Q t{in[2]}; d.add_seconds(t); OUTDT(0, d); out[2] = U(t); } \
E(e_rems_##S##_##Q) { auto d = DT(S, 0); const Q t{in[2]}; d.remove_seconds(t); OUTDT(0, d); out[2] = U(t); } \
E(e_cast_##S##_##Q) { const S t{in[0]}; out[0] = U((cast_to<S, Q>(t))); out[1] = U(t); } \
E(e_dcast_##S##_##Q){ const auto d = DT(S, 0); auto r = d.template cast_to<Q>(); OUTDT(0, r); OUTDT(2, d); } \
E(e_dsec_##S##_##Q) { const auto a = DT(S, 0); const auto b = DT(Q, 2); out[0] = U(delta_sec(a, b)); out[1] = U(delta_sec(b, a)); OUTDT(2, a); OUTDT(4, b); }
FOR9(X)
#undef X

// ------------------------------------------------------------ amounts
E(e_remd_h)   { hours t{static_cast<int>(in[0])}; out[0] = t.remove_days(); out[1] = U(t); }
E(e_remh_mi)  { minutes t{static_cast<int>(in[0])}; out[0] = U(t.remove_hours()); out[1] = U(t); }
E(e_resolve)  { const ms t{in[0]}; double f = static_cast<double>(in[1]); out[0] = U(t.resolve_sec(f)); fout[0] = f; out[1] = U(t); }
E(e_jd)       { const I d{in[0]}; fout[0] = d.to_julian_day(); out[0] = U(d); }
E(e_epochs)   { out[0] = jan61980; out[1] = jan11901; fout[0] = mjd0_jd; fout[1] = j2000_jd; fout[2] = j2000_mjd; fout[3] = sec_per_day; }

// ------------------------------------------------------------ month names
E(e_month)    { month m{str}; out[0] = U(m); }
E(e_short)    { const month m{static_cast<int>(in[0])}; month r{m.short_name()}; out[0] = U(r); out[1] = U(m); out[2] = static_cast<long>(std::strlen(m.short_name())); }
E(e_long)     { const month m{static_cast<int>(in[0])}; month r{m.long_name()}; out[0] = U(r); out[1] = U(m); out[2] = static_cast<long>(std::strlen(m.long_name())); }

// ------------------------------------------------------------ fundamental types
#define FOR11(X) X(year) X(month) X(gps_week) X(day_of_month) X(day_of_year) X(modified_julian_day) \
  X(hours) X(minutes) X(seconds) X(milliseconds) X(microseconds)
#define V(C, k) C{static_cast<C::underlying_type>(in[k])}
#define X(C) \
E(e_cmp_##C)  { const C a = V(C, 0); const C b = V(C, 1); out[0] = a == b; out[1] = a != b; out[2] = a < b; out[3] = a <= b; out[4] = a > b; out[5] = a >= b; out[6] = U(a); out[7] = U(b); } \
E(e_prei_##C) { C a = V(C, 0); C& r = ++a; out[0] = U(a); out[1] = &r == &a; } \
E(e_pred_##C) { C a = V(C, 0); C& r = --a; out[0] = U(a); out[1] = &r == &a; } \
E(e_posi_##C) { C a = V(C, 0); C r = a++; out[0] = U(a); out[1] = U(r); } \
E(e_posd_##C) { C a = V(C, 0); C r = a--; out[0] = U(a); out[1] = U(r); } \
E(e_peq_##C)  { C a = V(C, 0); const C b = V(C, 1); C& r = a += b; out[0] = U(a); out[1] = &r == &a; out[2] = U(b); } \
E(e_meq_##C)  { C a = V(C, 0); const C b = V(C, 1); C& r = a -= b; out[0] = U(a); out[1] = &r == &a; out[2] = U(b); } \
E(e_peqi_##C) { C a = V(C, 0); const int b = static_cast<int>(in[1]); C& r = a += b; out[0] = U(a); out[1] = &r == &a; out[2] = b; } \
E(e_meqi_##C) { C a = V(C, 0); const int b = static_cast<int>(in[1]); C& r = a -= b; out[0] = U(a); out[1] = &r == &a; out[2] = b; } \
E(e_peql_##C) { C a = V(C, 0); const long b = in[1]; C& r = a += b; out[0] = U(a); out[1] = &r == &a; out[2] = b; } \
E(e_meql_##C) { C a = V(C, 0); const long b = in[1]; C& r = a -= b; out[0] = U(a); out[1] = &r == &a; out[2] = b; } \
E(e_pequ_##C) { C a = V(C, 0); const unsigned b = static_cast<unsigned>(in[1]); C& r = a += b; out[0] = U(a); out[1] = &r == &a; out[2] = static_cast<long>(b); } \
E(e_mequ_##C) { C a = V(C, 0); const unsigned b = static_cast<unsigned>(in[1]); C& r = a -= b; out[0] = U(a); out[1] = &r == &a; out[2] = static_cast<long>(b); } \
E(e_peqh_##C) { C a = V(C, 0); const short b = static_cast<short>(in[1]); C& r = a += b; out[0] = U(a); out[1] = &r == &a; out[2] = static_cast<long>(b); } \
E(e_meqh_##C) { C a = V(C, 0); const short b = static_cast<short>(in[1]); C& r = a -= b; out[0] = U(a); out[1] = &r == &a; out[2] = static_cast<long>(b); } \
E(e_pequl_##C) { C a = V(C, 0); const unsigned long b = static_cast<unsigned long>(in[1]); C& r = a += b; out[0] = U(a); out[1] = &r == &a; out[2] = static_cast<long>(b); } \
E(e_mequl_##C) { C a = V(C, 0); const unsigned long b = static_cast<unsigned long>(in[1]); C& r = a -= b; out[0] = U(a); out[1] = &r == &a; out[2] = static_cast<long>(b); } \
E(e_peqb_##C) { C a = V(C, 0); const bool b = static_cast<bool>(in[1]); C& r = a += b; out[0] = U(a); out[1] = &r == &a; out[2] = static_cast<long>(b); } \
E(e_meqb_##C) { C a = V(C, 0); const bool b = static_cast<bool>(in[1]); C& r = a -= b; out[0] = U(a); out[1] = &r == &a; out[2] = static_cast<long>(b); } \
E(e_copy_##C) { const C b = V(C, 0); C a = V(C, 1); C& r = (a = b); out[0] = U(a); out[1] = &r == &a; out[2] = U(b); }
FOR11(X)
#undef X
#define FORASG(X) X(year) X(gps_week) X(day_of_month) X(day_of_year) X(modified_julian_day) \
  X(hours) X(minutes) X(seconds) X(milliseconds) X(microseconds)
#define X(C) \
E(e_asg_##C)  { C a = V(C, 1); C& r = (a = static_cast<C::underlying_type>(in[0])); out[0] = U(a); out[1] = &r == &a; } \
E(e_asgu_##C) { C a = V(C, 1); C& r = (a = static_cast<unsigned>(in[0])); out[0] = U(a); out[1] = &r == &a; } \
E(e_asgh_##C) { C a = V(C, 1); C& r = (a = static_cast<short>(in[0])); out[0] = U(a); out[1] = &r == &a; } \
E(e_asgi_##C) { C a = V(C, 1); C& r = (a = static_cast<int>(in[0])); out[0] = U(a); out[1] = &r == &a; }
FORASG(X)
#undef X
#define X(C) \
E(e_add_##C)  { const C a = V(C, 0); const C b = V(C, 1); out[0] = U(a + b); out[1] = U(a); out[2] = U(b); } \
E(e_sub_##C)  { const C a = V(C, 0); const C b = V(C, 1); out[0] = U(a - b); out[1] = U(a); out[2] = U(b); }
X(modified_julian_day) X(seconds) X(milliseconds) X(microseconds)
#undef X
E(e_literals) {
  using ull = unsigned long long;
  const ull v = static_cast<ull>(in[0]);
  out[0] = U(operator ""_Y(v)); out[1] = U(operator ""_M(v)); out[2] = U(operator ""_D(v));
  out[3] = U(operator ""_h(v)); out[4] = U(operator ""_m(v));
}
E(e_literall) {
  using ull = unsigned long long;
  const ull v = static_cast<ull>(in[0]);
  out[0] = U(operator ""_sec(v)); out[1] = U(operator ""_millisec(v)); out[2] = U(operator ""_microsec(v));
}

// ------------------------------------------------------------ makers and observers
// used by the verifier to apply a contract at a call site without looking at layouts
extern "C" {
long o_year(year); long o_month(month); long o_dom(day_of_month); long o_doy(day_of_year); long o_mjd(modified_julian_day);
long o_mjdp(const modified_julian_day*); long o_ymd_y(const ymd_date*); long o_ymd_m(const ymd_date*); long o_ymd_d(const ymd_date*);
long o_ydoy_y(const ydoy_date*); long o_ydoy_d(const ydoy_date*); long o_hours(hours); long o_minutes(minutes);
}
long o_year(year v) { return U(v); }
long o_month(month v) { return U(v); }
long o_dom(day_of_month v) { return U(v); }
long o_doy(day_of_year v) { return U(v); }
long o_mjd(modified_julian_day v) { return U(v); }
long o_mjdp(const modified_julian_day* p) { return U(*p); }
long o_ymd_y(const ymd_date* p) { return U(p->__year); }
long o_ymd_m(const ymd_date* p) { return U(p->__month); }
long o_ymd_d(const ymd_date* p) { return U(p->__dom); }
long o_ydoy_y(const ydoy_date* p) { return U(p->__year); }
long o_ydoy_d(const ydoy_date* p) { return U(p->__doy); }
modified_julian_day mk_mjd(long v) { return modified_julian_day{v}; }
ymd_date mk_ymd(long y, long m, long d) { return ymd_date{Y(y), M(m), D(d)}; }
ydoy_date mk_ydoy(long y, long d) { return ydoy_date{Y(y), DOY(d)}; }
void mk_month(month* p, long v) { *p = M(v); }
void mk_seconds(seconds* p, long v) { *p = seconds{v}; }
void mk_milliseconds(milliseconds* p, long v) { *p = milliseconds{v}; }
void mk_microseconds(microseconds* p, long v) { *p = microseconds{v}; }
long o_hours(hours v) { return U(v); }
long o_minutes(minutes v) { return U(v); }

#ifdef NATIVE
#include "driver.inc"
#endif
