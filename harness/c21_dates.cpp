// C21: Dates and time scales.
#include <absl/synchronization/mutex.h>

#include <array>
#include <cmath>
#include <cstdint>
#include <limits>
#include <optional>
#include <sstream>
#include <string>
#include <vector>

#include "astronomy/date_time.hpp"
#include "astronomy/epoch.hpp"
#include "astronomy/time_scales.hpp"
#include "geometry/instant.hpp"
#include "quantities/quantities.hpp"
#include "quantities/si.hpp"
#include "verif.hpp"

using namespace principia::astronomy::_date_time;
using namespace principia::astronomy::_epoch;
using namespace principia::astronomy::_time_scales;
using namespace principia::geometry::_instant;
using namespace principia::quantities::_quantities;
using namespace principia::quantities::_si;
namespace tables = principia::astronomy::_time_scales::internal;
using namespace verif;

namespace {

using Real = long double;
using Int64 = std::int64_t;
using principia::astronomy::_date_time::Calendar;

constexpr Real pi = 3.14159265358979323846264338327950288L;

Int64 FloorDivide(Int64 const a, Int64 const b) {
  return a / b - ((a % b != 0 && (a < 0) != (b < 0)) ? 1 : 0);
}

bool Leap(Calendar const c, Int64 const year) {
  Int64 const y = ((year % 400) + 400) % 400;
  return c == Calendar::Julian ? y % 4 == 0
                               : y % 4 == 0 && (y % 100 != 0 || y == 0);
}

int MonthLength(Calendar const c, Int64 const year, int const month) {
  static constexpr int lengths[] =
      {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  return lengths[month - 1] + (month == 2 && Leap(c, year) ? 1 : 0);
}

// The number of days since (proleptic Gregorian) 2000-01-01.
Int64 DayNumber(Calendar const c, Int64 const year, int const month,
                int const day) {
  // The days of the years elapsed since the year 0, which is leap.
  Int64 const y = year - 1;
  Int64 n = 365 * year + FloorDivide(y, 4) + 1;
  if (c == Calendar::Gregorian) {
    n += FloorDivide(y, 400) - FloorDivide(y, 100);
  } else {
    // In the years 0 to 200, 0-03-01 to 100-02-28 Gregorian are two days off.
    n -= 2;
  }
  for (int m = 1; m < month; ++m) {
    n += MonthLength(c, year, m);
  }
  n += day - 1;
  // 2000-01-01 Gregorian.
  static Int64 const j2000 = 365 * 2000 + 499 + 1 + 4 - 19;
  return n - j2000;
}

struct Civil {
  Calendar calendar;
  int year;
  int month;
  int day;
  bool operator==(Civil const&) const = default;
};

Civil FromDayNumber(Calendar const c, Int64 const n) {
  Int64 year = 2000 + FloorDivide(n, 366);
  while (DayNumber(c, year + 1, 1, 1) <= n) {
    ++year;
  }
  while (DayNumber(c, year, 1, 1) > n) {
    --year;
  }
  int month = 1;
  while (month < 12 && DayNumber(c, year, month + 1, 1) <= n) {
    ++month;
  }
  return {c, static_cast<int>(year), month,
          static_cast<int>(n - DayNumber(c, year, month, 1)) + 1};
}

// Monday is 1.
int DayOfWeek(Int64 const n) {
  // 2000-01-01 was a Saturday.
  return static_cast<int>(((n + 5) % 7 + 7) % 7) + 1;
}

// The ISO week, from its definition: weeks belong to the year of their
// Thursday.
void IsoWeek(Int64 const n, int& year, int& week, int& day) {
  day = DayOfWeek(n);
  Int64 const thursday = n - day + 4;
  Civil const c = FromDayNumber(Calendar::Gregorian, thursday);
  year = c.year;
  week = static_cast<int>(
      (thursday - DayNumber(Calendar::Gregorian, c.year, 1, 1)) / 7) + 1;
}

// JD of 2000-01-01T00:00:00.
constexpr double j2000_midnight = 2451544.5;
// The JD of the Gregorian calendar reform, as a day number.
constexpr Int64 reform = 2299161 - 2451545;

// Calls `f` and returns nothing if it dies.
template<typename F>
auto Try(F f) -> std::optional<decltype(f())> {
  try {
    return std::make_optional(f());
  } catch (...) {
    return std::nullopt;
  }
}

std::optional<Date> ParseDate(std::string const& s) {
  return Try([&] {
    return principia::astronomy::_date_time::operator""_Date(s.c_str(),
                                                             s.size());
  });
}

std::optional<TimeOfDay> ParseTime(std::string const& s) {
  return Try([&] {
    return principia::astronomy::_date_time::operator""_Time(s.c_str(),
                                                             s.size());
  });
}

template<typename T>
std::string Print(T const& t) {
  std::ostringstream s;
  s << t;
  return s.str();
}

std::string Digits(Int64 const n, int const width) {
  std::string s = std::to_string(n);
  return std::string(std::max<int>(0, width - s.size()), '0') + s;
}

std::string SignedYear(int const year) {
  return (year < 0 ? "-" : "") + Digits(std::abs(year), 4);
}

Civil CivilOf(Date const& d) {
  return {d.calendar(), d.year(), d.month(), d.day()};
}

void CheckDay(Date const& d, Int64 const n, std::string const& what) {
  VERIF(d.jd() == n + j2000_midnight, "dates:" + what + " jd",
        d.jd() << " for " << n + j2000_midnight);
  VERIF(d.mjd() == n + 51544, "dates:" + what + " mjd", d.mjd());
}

Civil RandomCivil(Rng& r) {
  Civil c;
  switch (Int(r, 0, 5)) {
    case 0:
      c.calendar = Calendar::Julian;
      c.year = Int(r, -4711, 2500);
      break;
    case 1:
      c.calendar = Calendar::Gregorian;
      c.year = Int(r, -4000, 1582);
      break;
    case 2:
      // Centuries, close to the leap years.
      c.calendar = Chance(r, 0.7) ? Calendar::Gregorian : Calendar::Julian;
      c.year = c.calendar == Calendar::Gregorian
                   ? 100 * Int(r, 1, 99) + Int(r, -1, 1)
                   : 100 * Int(r, -40, 20) + Int(r, -1, 1);
      break;
    case 3:
      c.calendar = Calendar::Gregorian;
      c.year = Int(r, 1580, 1585);
      break;
    default:
      c.calendar = Calendar::Gregorian;
      c.year = Int(r, 1583, 9999);
  }
  c.month = Chance(r, 0.3) ? (Int(r, 0, 2) * 11 + 1) % 12 + 1 : Int(r, 1, 12);
  int const length = MonthLength(c.calendar, c.year, c.month);
  c.day = Chance(r, 0.3) ? (Chance(r, 0.5) ? 1 : length) : Int(r, 1, length);
  return c;
}

void DateCase(Rng& r) {
  Civil const c = RandomCivil(r);
  Int64 const n = DayNumber(c.calendar, c.year, c.month, c.day);
  std::string const prefix = c.calendar == Calendar::Julian ? "J" : "G";
  bool const needs_prefix =
      c.calendar == Calendar::Julian || c.year < 1583;
  std::string const p =
      needs_prefix || Chance(r, 0.3) ? prefix : std::string();
  std::string const description =
      p + SignedYear(c.year) + "-" + Digits(c.month, 2) + "-" +
      Digits(c.day, 2);
  SetCase("date " + prefix + description);
  Case(prefix + description);

  auto const calendar = p.empty() ? std::optional<Calendar>()
                                  : std::optional<Calendar>(c.calendar);
  auto const d =
      Try([&] { return Date::Calendar(c.year, c.month, c.day, calendar); });
  if (!d) {
    Fail("dates:refused", description);
    return;
  }
  VERIF(CivilOf(*d) == c, "dates:components", "");
  CheckDay(*d, n, prefix);
  int const ordinal =
      static_cast<int>(n - DayNumber(c.calendar, c.year, 1, 1)) + 1;
  VERIF(d->ordinal() == ordinal, "dates:ordinal",
        d->ordinal() << " for " << ordinal);

  // From the Julian date, the calendar is the one in use.
  Calendar const actual =
      n < reform ? Calendar::Julian : Calendar::Gregorian;
  Civil const expected = FromDayNumber(actual, n);
  if (n + j2000_midnight >= 0 && expected.year <= 9999) {
    Date const from_jd = Date::JD(n + j2000_midnight);
    VERIF(CivilOf(from_jd) == expected, "dates:from JD",
          Print(from_jd) << " for " << expected.year << " " << expected.month
                         << " " << expected.day);
    VERIF(from_jd == *d && !(from_jd != *d) && !(from_jd < *d) &&
              !(from_jd > *d),
          "dates:equality of equivalent dates", "");
    VERIF(d->next_day().jd() == d->jd() + 1, "dates:next day",
          Print(d->next_day()));
    CheckDay(d->next_day(), n + 1, "next day");
    auto const from_ordinal =
        Try([&] { return Date::Ordinal(c.year, ordinal, calendar); });
    if (from_ordinal) {
      CheckDay(*from_ordinal, n, "ordinal");
    } else {
      Fail("dates:ordinal refused", description);
    }
  }

  // Order.
  Civil const other = Chance(r, 0.5) ? RandomCivil(r) : c;
  Int64 const other_n =
      DayNumber(other.calendar, other.year, other.month, other.day);
  Date const other_d = Date::Calendar(other.year, other.month, other.day,
                                      other.calendar);
  VERIF((*d < other_d) == (n < other_n) && (*d > other_d) == (n > other_n) &&
            (*d == other_d) == (n == other_n) &&
            (*d != other_d) == (n != other_n) &&
            (*d <= other_d) == (n <= other_n) &&
            (*d >= other_d) == (n >= other_n),
        "dates:order", Print(other_d));

  // Strings.
  std::string const printed = Print(*d);
  std::string const canonical =
      (c.calendar == Calendar::Julian ? "J" : c.year <= 1582 ? "G" : "") +
      SignedYear(c.year) + "-" + Digits(c.month, 2) + "-" + Digits(c.day, 2);
  VERIF(printed == canonical, "dates:printed", printed);
  std::string const sign =
      c.year < 0 ? "-" : Chance(r, 0.2) ? "+" : "";
  std::string const y = Digits(std::abs(c.year), 4);
  std::string const m = Digits(c.month, 2);
  std::string const dd = Digits(c.day, 2);
  for (std::string const& s : {printed, p + sign + y + "-" + m + "-" + dd,
                               p + sign + y + m + dd}) {
    auto const parsed = ParseDate(s);
    if (parsed) {
      VERIF(CivilOf(*parsed) == c, "dates:parsed", s << " as "
                                                     << Print(*parsed));
    } else {
      Fail("dates:string refused", s);
    }
  }
  for (std::string const& s :
       {p + sign + y + "-" + Digits(ordinal, 3),
        p + sign + y + Digits(ordinal, 3)}) {
    auto const parsed = ParseDate(s);
    if (parsed) {
      CheckDay(*parsed, n, "ordinal string");
    } else {
      Fail("dates:ordinal string refused", s);
    }
  }

  // Weeks.
  if (c.calendar == Calendar::Gregorian && c.year >= 1584 && c.year <= 9998) {
    int year;
    int week;
    int day;
    IsoWeek(n, year, week, day);
    CheckDay(Date::Week(year, week, day), n, "week");
    for (std::string const& s :
         {Digits(year, 4) + "-W" + Digits(week, 2) + "-" + Digits(day, 1),
          Digits(year, 4) + "W" + Digits(week, 2) + Digits(day, 1)}) {
      auto const parsed = ParseDate(s);
      if (parsed) {
        CheckDay(*parsed, n, "week string");
      } else {
        Fail("dates:week string refused", s);
      }
    }
    // The number of weeks.
    int last_year;
    int weeks;
    // The 28th of December is always in the last week.
    IsoWeek(DayNumber(Calendar::Gregorian, c.year, 12, 28), last_year, weeks,
            day);
    VERIF(Try([&] { return Date::Week(c.year, weeks, 7); }).has_value(),
          "dates:last week refused", "");
    VERIF(!Try([&] { return Date::Week(c.year, weeks + 1, 1); }).has_value(),
          "dates:extra week accepted", "");
  }

  // Invalid dates.
  int const length = MonthLength(c.calendar, c.year, c.month);
  VERIF(!Try([&] {
          return Date::Calendar(c.year, c.month, length + 1, c.calendar);
        }) && !Try([&] {
          return Date::Calendar(c.year, c.month, 0, c.calendar);
        }) && !Try([&] {
          return Date::Calendar(c.year, 13, c.day, c.calendar);
        }) && !Try([&] {
          return Date::Calendar(c.year, 0, c.day, c.calendar);
        }) && !Try([&] {
          return Date::Ordinal(c.year, 366 + Leap(c.calendar, c.year),
                               c.calendar);
        }) && !Try([&] { return Date::Ordinal(c.year, 0, c.calendar); }),
        "dates:invalid accepted", "");
  VERIF(!ParseDate(p + sign + y + "-" + m + "-" + Digits(length + 1, 2)) &&
            !ParseDate(p + sign + y + "-" + m + dd) &&
            !ParseDate(p + sign + y + m + "-" + dd) &&
            !ParseDate(p + sign + y + m + dd + "0") &&
            !ParseDate(p + sign + y + m + dd + " "),
        "dates:invalid string accepted", "");
  if (c.year < 1583) {
    VERIF(!Try([&] { return Date::Calendar(c.year, c.month, c.day); }),
          "dates:no calendar", "");
  }
  Count("dates", 1);
}

struct Clock {
  Int64 h;
  Int64 m;
  Int64 s;
  Int64 ms;
};

Clock RandomClock(Rng& r) {
  switch (Int(r, 0, 4)) {
    case 0: return {Int(r, 0, 23), Int(r, 0, 59), Int(r, 0, 59), 0};
    case 1: return {23, 59, 59, Int(r, 0, 999)};
    case 2: return {0, 0, 0, Int(r, 0, 1) * Int(r, 0, 999)};
    default:
      return {Int(r, 0, 23), Int(r, 0, 59), Int(r, 0, 59), Int(r, 0, 999)};
  }
}

std::string ClockString(Rng& r, Clock const& c, bool const extended) {
  std::string s = extended ? Digits(c.h, 2) + ":" + Digits(c.m, 2) + ":" +
                                 Digits(c.s, 2)
                           : Digits(c.h, 2) + Digits(c.m, 2) + Digits(c.s, 2);
  std::string const mark = Chance(r, 0.5) ? "," : ".";
  if (c.ms % 100 == 0 && Chance(r, 0.5)) {
    if (c.ms > 0 || Chance(r, 0.2)) {
      s += mark + Digits(c.ms / 100, 1);
    }
  } else if (c.ms % 10 == 0 && Chance(r, 0.5)) {
    s += mark + Digits(c.ms / 10, 2);
  } else {
    s += mark + Digits(c.ms, 3);
  }
  return s;
}

void TimeCase(Rng& r) {
  // Valid or invalid.
  Clock c = RandomClock(r);
  switch (Int(r, 0, 7)) {
    case 0: c = {24, 0, 0, 0}; break;
    case 1: c = {23, 59, 60, Int(r, 0, 999)}; break;
    case 2: c.s = 60; break;
    case 3: c.m = 60 + Int(r, 0, 39); break;
    case 4: c.h = 24 + Int(r, 0, 3); break;
  }
  bool const valid =
      (c.h == 24 && c.m == 0 && c.s == 0 && c.ms == 0) ||
      (c.h == 23 && c.m == 59 && c.s == 60) ||
      (c.h < 24 && c.m < 60 && c.s < 60);
  bool const extended = Chance(r, 0.5);
  std::string const s = ClockString(r, c, extended);
  SetCase("time " + s);
  Case(s);
  auto const t = ParseTime(s);
  VERIF(t.has_value() == valid, "times:valid", s);
  VERIF(Try([&] { return TimeOfDay(c.h, c.m, c.s, c.ms); }).has_value() ==
            valid,
        "times:valid components", s);
  Count(valid ? "valid times" : "invalid times", 1);
  if (t) {
    VERIF(t->hour() == c.h && t->minute() == c.m && t->second() == c.s &&
              t->millisecond() == c.ms,
          "times:components", Print(*t));
    VERIF(t->is_leap_second() == (c.s == 60) &&
              t->is_end_of_day() == (c.h == 24),
          "times:kind", "");
    auto const again = ParseTime(Print(*t));
    VERIF(again.has_value() && *again == *t && !(*again != *t),
          "times:printed", Print(*t));
    TimeOfDay const other(c.h == 24 ? 23 : c.h, c.m, c.s,
                          c.ms == 0 ? 1 : c.ms - 1);
    VERIF(!(other == *t) && other != *t, "times:inequality", Print(other));
  }
  VERIF(!ParseTime(s + ":") && !ParseTime(s + "x") && !ParseTime("") &&
            !ParseTime(s.substr(0, 5)),
        "times:invalid accepted", s);
}

Real Seconds(Instant const& t) {
  return (t - J2000) / Second;
}

double UlpOf(Real const x) {
  double const a = static_cast<double>(std::abs(x));
  return std::nextafter(a, std::numeric_limits<double>::infinity()) - a;
}

// UTC
struct LeapSecond {
  int year;
  int month;
};
constexpr LeapSecond leap_seconds[] = {
    {1972, 6}, {1972, 12}, {1973, 12}, {1974, 12}, {1975, 12}, {1976, 12},
    {1977, 12}, {1978, 12}, {1979, 12}, {1981, 6}, {1982, 6}, {1983, 6},
    {1985, 6}, {1987, 12}, {1989, 12}, {1990, 12}, {1992, 6}, {1993, 6},
    {1994, 6}, {1995, 12}, {1997, 6}, {1998, 12}, {2005, 12}, {2008, 12},
    {2012, 6}, {2015, 6}, {2016, 12}};

struct Stretch {
  int year;
  int month;
  Real offset;
  int mjd;
  Real rate;
  // The length in ms of the leap before this.
  Real leap;
};
constexpr Stretch stretches[] = {
    {1961, 1, 1.4228180L, 37300, 0.001296L, 0},
    {1961, 8, 1.3728180L, 37300, 0.001296L, -50},
    {1962, 1, 1.8458580L, 37665, 0.0011232L, 0},
    {1963, 11, 1.9458580L, 37665, 0.0011232L, 100},
    {1964, 1, 3.2401300L, 38761, 0.001296L, 0},
    {1964, 4, 3.3401300L, 38761, 0.001296L, 100},
    {1964, 9, 3.4401300L, 38761, 0.001296L, 100},
    {1965, 1, 3.5401300L, 38761, 0.001296L, 100},
    {1965, 3, 3.6401300L, 38761, 0.001296L, 100},
    {1965, 7, 3.7401300L, 38761, 0.001296L, 100},
    {1965, 9, 3.8401300L, 38761, 0.001296L, 100},
    {1966, 1, 4.3131700L, 39126, 0.002592L, 0},
    {1968, 2, 4.2131700L, 39126, 0.002592L, -100},
    {1972, 1, 10, 0, 0, 107.7580L}};

// TAI - UTC in force on the given day, for a time in seconds since 2000-01-01
// 12:00:00 UTC.
Real TAIMinusUTC(Int64 const day, Real const utc) {
  auto const number = [](int const year, int const month) {
    return DayNumber(Calendar::Gregorian, year, month, 1);
  };
  if (day >= number(1972, 1)) {
    Real result = 10;
    for (auto const& leap : leap_seconds) {
      if (day >= (leap.month == 6 ? number(leap.year, 7)
                                  : number(leap.year + 1, 1))) {
        result += 1;
      }
    }
    return result;
  }
  Stretch const* stretch = &stretches[0];
  for (auto const& s : stretches) {
    if (day >= number(s.year, s.month)) {
      stretch = &s;
    }
  }
  return stretch->offset +
         (utc / 86400 + 51544.5L - stretch->mjd) * stretch->rate;
}

bool ValidUTC(Int64 const day, Clock const& c) {
  Civil const next = FromDayNumber(Calendar::Gregorian, day + 1);
  Civil const civil = FromDayNumber(Calendar::Gregorian, day);
  if (civil.year < 1961) {
    return false;
  }
  if (civil.year >= 1972) {
    if (c.s != 60) {
      return true;
    }
    for (auto const& leap : leap_seconds) {
      if (leap.year == civil.year && leap.month == civil.month) {
        return true;
      }
    }
    return false;
  }
  for (auto const& s : stretches) {
    if (next.year == s.year && next.month == s.month && next.day == 1) {
      if (s.leap < 0) {
        return c.s != 60 &&
               !(c.h == 23 && c.m == 59 && c.s == 59 && c.ms >= 1000 + s.leap);
      } else {
        return c.s != 60 || c.ms < s.leap;
      }
    }
  }
  return c.s != 60;
}

// UT1 - TAI, with its nodes, from the tables of the IERS.
struct Node {
  Real ut1;
  Real ut1_minus_tai;
  // As a difference from J2000.
  Real tt;
  // For EOP C04 only.
  Int64 day;
  Real ut1_minus_utc;
};
std::vector<Node> const& Nodes(int& c04) {
  static int first_c04 = 0;
  static std::vector<Node> const nodes = [] {
    std::vector<Node> result;
    std::vector<Node> c04;
    for (auto const& e : tables::eop_c04) {
      int const d = e.utc_date;
      Int64 const day = DayNumber(Calendar::Gregorian, d / 10000,
                                  d / 100 % 100, d % 100);
      Real const utc = (day - 0.5L) * 86400;
      Real const tai_utc = TAIMinusUTC(day, utc);
      Real const ut1_utc = static_cast<Real>(e.ut1_minus_utc / Second);
      c04.push_back({utc + ut1_utc, ut1_utc - tai_utc,
                     utc + tai_utc + 32.184L, day, ut1_utc});
    }
    for (auto const& e : tables::experimental_eop_c02) {
      Real const ut1 = (static_cast<Real>(e.ut1_mjd) - 51544.5L) * 86400;
      if (ut1 < c04.front().ut1) {
        Real const ut1_tai = static_cast<Real>(e.ut1_minus_tai / Second);
        result.push_back({ut1, ut1_tai, 0, 0, 0});
      }
    }
    first_c04 = static_cast<int>(result.size());
    result.insert(result.end(), c04.begin(), c04.end());
    return result;
  }();
  c04 = first_c04;
  return nodes;
}

Node const* Below(std::vector<Node> const& nodes, Real const x,
                  Real Node::*const member, int const first) {
  auto const it = std::upper_bound(
      nodes.begin() + first, nodes.end(), x,
      [member](Real const x, Node const& n) { return x < n.*member; });
  if (it == nodes.begin() + first || it == nodes.end()) {
    return nullptr;
  }
  return &*(it - 1);
}

// A day, possibly the last of a month, in the given years.
Int64 RandomDay(Rng& r, int const first_year, int const last_year) {
  int const year = Int(r, first_year, last_year);
  int const month = Chance(r, 0.3) ? (Chance(r, 0.5) ? 6 : 12) : Int(r, 1, 12);
  int const length = MonthLength(Calendar::Gregorian, year, month);
  int const day = Chance(r, 0.4) ? length
                                 : Chance(r, 0.2) ? 1 : Int(r, 1, length);
  return DayNumber(Calendar::Gregorian, year, month, day);
}

std::string DateTimeString(Rng& r, Int64 const day, Clock const& c) {
  Civil const civil = FromDayNumber(Calendar::Gregorian, day);
  bool const extended = Chance(r, 0.5);
  std::string const prefix = civil.year < 1583 ? "G" : "";
  std::string const hyphen = extended ? "-" : "";
  return prefix + SignedYear(civil.year) + hyphen + Digits(civil.month, 2) +
         hyphen + Digits(civil.day, 2) + "T" + ClockString(r, c, extended);
}

Real Since2000(Int64 const day, Clock const& c) {
  return (day - 0.5L) * 86400 + 3600 * c.h + 60 * c.m + c.s + c.ms / 1000.0L;
}

void CheckInstant(std::optional<Instant> const& t, Real const expected,
                  double const extra, std::string const& key,
                  std::string const& s) {
  if (!t) {
    Fail("scales:refused " + key, s);
    return;
  }
  double const error = static_cast<double>(std::abs(Seconds(*t) - expected));
  double const tolerance = 2 * UlpOf(expected) + 8e-15 + extra;
  Max("scales: error of " + key, error / tolerance);
  VERIF(error <= tolerance, "scales:" + key,
        s << ": " << error << " s, tolerance " << tolerance);
}

void CheckUTC(Rng& r, Int64 const day, Clock const& c) {
  std::string const s = DateTimeString(r, day, c);
  SetCase("UTC " + s);
  Case("UTC " + s);
  Civil const civil = FromDayNumber(Calendar::Gregorian, day);
  bool const modern = civil.year >= 1972;
  bool const is_24 = c.h == 24;
  Int64 const effective_day = is_24 ? day + 1 : day;
  if (is_24 && civil.year == 1960) {
    return;
  }
  Real const utc = Since2000(day, c);
  auto const t = Try([&] { return ParseUTC(s); });
  if (!ValidUTC(effective_day, is_24 ? Clock{0, 0, 0, 0} : c)) {
    VERIF(!t, "scales:invalid UTC accepted", s);
    Count("invalid UTC", 1);
  } else {
    Real const tai = utc + TAIMinusUTC(effective_day, utc);
    CheckInstant(t, tai + 32.184L, 4 * UlpOf(utc),
                 modern ? "modern UTC" : "stretchy UTC", s);
    Count(modern ? "modern UTC" : "stretchy UTC", 1);
    if (c.s == 60) {
      Count("leap seconds", 1);
    }
    // Parsing is monotonic across leaps.
    Clock const first = {0, 0, 0, 0};
    auto const next_day =
        Try([&] { return ParseUTC(DateTimeString(r, day + 1, first)); });
    if (t && !is_24 && next_day) {
      VERIF(*t < *next_day, "scales:UTC order", s);
    }
  }
}

// All the milliseconds where something may happen at the end of all the months.
void LeapsCase(Rng& r, int const year) {
  for (int month = 1; month <= 12; ++month) {
    Int64 const last = DayNumber(Calendar::Gregorian, year, month,
                                 MonthLength(Calendar::Gregorian, year, month));
    for (int const s : {59, 60}) {
      if (s == 60 && year >= 1972 && month != 6 && month != 12) {
        continue;
      }
      for (int const ms : {0, 1, 49, 50, 51, 98, 99, 100, 101, 106, 107, 108,
                           500, 898, 899, 900, 901, 949, 950, 951, 998, 999}) {
        CheckUTC(r, last, {23, 59, s, ms});
      }
    }
    CheckUTC(r, last, {24, 0, 0, 0});
    CheckUTC(r, last + 1, {0, 0, 0, 0});
    CheckUTC(r, last - 1, {23, 59, 59, 999});
  }
}

// All the days for which a Julian date can be converted, one after the other.
void AllDays() {
  // 4713-01-02 BC, at 00:00:00.
  int year = -4712;
  int month = 1;
  int day = 2;
  double jd = 0.5;
  std::string first_failure;
  Int64 failures = 0;
  Int64 days = 0;
  SetCase("all days");
  while (year < 10000) {
    Date const d = Date::JD(jd);
    auto const calendar = jd < 2299160.5 ? Calendar::Julian
                                         : Calendar::Gregorian;
    if (d.year() != year || d.month() != month || d.day() != day ||
        d.calendar() != calendar || d.jd() != jd) {
      if (++failures == 1) {
        first_failure = Str(jd);
      }
    }
    ++days;
    jd += 1;
    if (jd == 2299160.5) {
      year = 1582;
      month = 10;
      day = 15;
    } else if (++day > MonthLength(calendar, year, month)) {
      day = 1;
      if (++month > 12) {
        month = 1;
        ++year;
      }
    }
  }
  VERIF(failures == 0, "dates:all days",
        failures << " days, starting with JD " << first_failure);
  Count("consecutive days", days);
  Max("last consecutive day", jd);
}

void ScaleCase(Rng& r) {
  switch (Int(r, 0, 6)) {
    case 0:
    case 1: {
      // The regular time scales.
      Int64 const day = Chance(r, 0.5) ? RandomDay(r, 1950, 2100)
                                       : RandomDay(r, 1, 9998);
      Clock const c = Chance(r, 0.1) ? Clock{24, 0, 0, 0} : RandomClock(r);
      std::string const s = DateTimeString(r, day, c);
      SetCase("regular " + s);
      Case("regular " + s);
      Real const x = Since2000(day, c);
      CheckInstant(Try([&] { return ParseTT(s); }), x, 0, "TT", s);
      CheckInstant(Try([&] { return ParseTAI(s); }), x + 32.184L, 2e-15 +
                   UlpOf(x), "TAI", s);
      CheckInstant(Try([&] { return ParseGPSTime(s); }), x + 51.184L,
                   2e-15 + 2 * UlpOf(x), "GPS", s);
      CheckInstant(Try([&] { return Parse北斗Time(s); }), x + 65.184L,
                   2e-15 + 2 * UlpOf(x), "BDT", s);
      // There are no leap seconds.
      Clock const leap = {23, 59, 60, 0};
      std::string const l = DateTimeString(r, day, leap);
      VERIF(!Try([&] { return ParseTT(l); }) &&
                !Try([&] { return ParseTAI(l); }) &&
                !Try([&] { return ParseGPSTime(l); }),
            "scales:leap second on a regular scale", l);
      Count("regular scales", 1);
      break;
    }
    case 2: {
      // Julian dates.
      std::string s = Chance(r, 0.5) ? "JD" : "MJD";
      Int64 const day = s == "JD" ? Int(r, 0, 4000000) : Int(r, 0, 200000);
      int const places = Int(r, 0, 10);
      s += std::to_string(day);
      Real fraction = 0;
      if (places > 0) {
        Int64 const p = static_cast<Int64>(std::llround(std::pow(10, places)));
        Int64 const f = Chance(r, 0.2) ? p / 2
                                       : static_cast<Int64>(r() % p);
        s += "." + Digits(f, places);
        fraction = static_cast<Real>(f) / p;
      }
      SetCase("julian " + s);
      Case(s);
      Real const x =
          ((s[0] == 'J' ? day - 2451545.0L : day - 51544.5L) + fraction) *
          86400;
      // One rounding in days, and one in seconds.
      CheckInstant(Try([&] { return ParseTT(s); }), x, 2e-11 + UlpOf(x),
                   "Julian TT", s);
      CheckInstant(Try([&] { return ParseTAI(s); }), x + 32.184L,
                   2e-11 + 2 * UlpOf(x), "Julian TAI", s);
      VERIF(!Try([&] { return ParseTT(s + "x"); }) &&
                !Try([&] { return ParseTT(s + ".1."); }),
            "scales:invalid Julian date accepted", s);
      Count("Julian dates", 1);
      break;
    }
    case 3:
    case 4: {
      // UTC.
      bool const modern = Chance(r, 0.5);
      Int64 day = modern ? RandomDay(r, 1972, 2022) : RandomDay(r, 1961, 1971);
      if (Chance(r, 0.4)) {
        // Close to a leap.
        auto const& s = stretches[Int(r, 0, 13)];
        auto const& l = leap_seconds[Int(r, 0, 26)];
        day = modern ? DayNumber(Calendar::Gregorian, l.year, l.month,
                                 MonthLength(Calendar::Gregorian, l.year,
                                             l.month))
                     : DayNumber(Calendar::Gregorian, s.year, s.month, 1) - 1;
        day += Chance(r, 0.2) ? Int(r, -1, 1) : 0;
      }
      Clock c = RandomClock(r);
      Civil const civil = FromDayNumber(Calendar::Gregorian, day);
      bool const end_of_month =
          civil.day ==
          MonthLength(Calendar::Gregorian, civil.year, civil.month);
      switch (Int(r, 0, 5)) {
        case 0: c = {24, 0, 0, 0}; break;
        case 1: c = {23, 59, 59, Chance(r, 0.5) ? Int(r, 850, 999)
                                                : Int(r, 0, 999)}; break;
        case 2: c = {23, 59, Int(r, 0, 59), Int(r, 850, 999)}; break;
        case 3:
          if (end_of_month &&
              (civil.year < 1972 || civil.month == 6 || civil.month == 12)) {
            c = {23, 59, 60, Chance(r, 0.5) ? Int(r, 95, 110)
                                            : Int(r, 0, 999)};
          }
          break;
      }
      CheckUTC(r, day, c);
      break;
    }
    case 5: {
      // UT1.
      int c04;
      auto const& nodes = Nodes(c04);
      std::string s;
      Real ut1;
      Int64 day;
      Clock c;
      if (Chance(r, 0.15)) {
        // Where the series join.
        day = DayNumber(Calendar::Gregorian, 1962, 1, 1) + Int(r, -150, 2);
        c = RandomClock(r);
      } else {
        day = RandomDay(r, 1831, 2021);
        c = RandomClock(r);
      }
      if (Chance(r, 0.2)) {
        c = {24, 0, 0, 0};
      }
      ut1 = Since2000(day, c);
      s = DateTimeString(r, day, c);
      SetCase("UT1 " + s);
      Case("UT1 " + s);
      Node const* const low = Below(nodes, ut1, &Node::ut1, 0);
      if (low == nullptr) {
        break;
      }
      // In the vicinity of a node the choice of the interval is unimportant,
      // the interpolation is continuous.
      Node const* const high = low + 1;
      Real const interpolated =
          low->ut1_minus_tai + (ut1 - low->ut1) *
                                   (high->ut1_minus_tai - low->ut1_minus_tai) /
                                   (high->ut1 - low->ut1);
      CheckInstant(Try([&] { return ParseUT1(s); }),
                   ut1 - interpolated + 32.184L, 4 * UlpOf(ut1) + 1e-9,
                   low - nodes.data() >= c04 ? "UT1 (C04)" : "UT1 (C02)", s);
      Count(low - nodes.data() >= c04 ? "UT1 (C04)" : "UT1 (C02)", 1);
      VERIF(!Try([&] {
              return ParseUT1(DateTimeString(r, day, {23, 59, 60, 0}));
            }),
            "scales:leap second of UT1", "");
      break;
    }
    case 6: {
      // Earth rotation.
      int c04;
      auto const& nodes = Nodes(c04);
      double x = Uniform(r, -1.1992e9, 7.0779e8);
      if (Chance(r, 0.3)) {
        // Close to midnight UTC.
        x = static_cast<double>(
            nodes[Int(r, c04, static_cast<int>(nodes.size()) - 2)].tt +
            Uniform(r, -3, 3));
      }
      Instant const t = J2000 + x * Second;
      SetCase("rotation at " + Str(x));
      Case("rotation at " + Str(x));
      Node const* const low = Below(nodes, x, &Node::tt, c04);
      if (low == nullptr) {
        break;
      }
      Node const* const high = low + 1;
      auto const angle = Try([&] { return EarthRotationAngle(t); });
      if (!angle) {
        Fail("scales:Earth rotation refused", Str(x));
        break;
      }
      Real const λ = (x - low->tt) / (high->tt - low->tt);
      Real const fraction =
          (λ - 0.5L) +
          (low->ut1_minus_utc +
           λ * (high->ut1_minus_utc - low->ut1_minus_utc)) / 86400;
      Real const tu = low->day + fraction;
      Real const turns =
          fraction + 0.7790572732640L + 0.00273781191135448L * tu;
      double const error = static_cast<double>(
          std::abs(std::remainder(*angle / Radian - 2 * pi * turns, 2 * pi)));
      Max("scales: error of the Earth rotation", error);
      // The resolution of the instants.
      VERIF(error < 1e-10, "scales:Earth rotation", error);
      Count("Earth rotation angles", 1);
      break;
    }
  }
}

void RoundingCase(Rng& r) {
  double x;
  switch (Int(r, 0, 4)) {
    case 0: x = Uniform(r, -2.1e11, 2.4e11); break;
    case 1: {
      // Close to a second, minute, hour, or day.
      static constexpr Int64 units[] = {1, 60, 3600, 86400};
      Int64 const unit = units[Int(r, 0, 3)];
      double const limit = Chance(r, 0.5) ? 1e6 : 2e11;
      x = static_cast<double>(
              static_cast<Int64>(Uniform(r, -limit, limit) / unit) * unit) +
          (unit == 86400 ? 43200 : 0);
      for (int k = Int(r, 0, 3); k > 0; --k) {
        x = std::nextafter(x, x + Int(r, -1, 1));
      }
      break;
    }
    case 2: x = LogUniform(r, -1074, 20); break;
    case 3: x = 43200.0 * Int(r, -3, 3) + LogUniform(r, -60, 3); break;
    default: x = static_cast<double>(Int(r, -1000000, 1000000)); break;
  }
  SetCase("rounding " + Str(x));
  Case("rounding " + Str(x));
  Instant const t = J2000 + x * Second;
  if ((t - J2000) / Second != x) {
    return;
  }
  // Exact.
  Int64 const second = static_cast<Int64>(std::floor(x));
  Int64 const day = FloorDivide(second + 43200, 86400);
  int const second_of_day = static_cast<int>(second + 43200 - day * 86400);
  auto const tt_day = Try([&] { return TTDay(t); });
  auto const tt_second = Try([&] { return TTSecond(t); });
  if (!tt_day || !tt_second) {
    Fail("rounding:fatal", Str(x));
    return;
  }
  VERIF(tt_day->jd() == day + j2000_midnight, "rounding:day",
        Print(*tt_day));
  VERIF(tt_second->date().jd() == day + j2000_midnight &&
            tt_second->time().hour() == second_of_day / 3600 &&
            tt_second->time().minute() == second_of_day / 60 % 60 &&
            tt_second->time().second() == second_of_day % 60 &&
            tt_second->time().millisecond() == 0,
        "rounding:second", Print(*tt_second));
  VERIF(Seconds(DateTimeAsTT(*tt_second)) == second, "rounding:as TT",
        Print(*tt_second));
  Count("instants rounded", 1);
}

// Strings that are nearly valid: anything but a crash is possible, and what is
// accepted is read as it is printed.
void StringCase(Rng& r) {
  Int64 const day = RandomDay(r, 1600, 2100);
  std::string s = DateTimeString(r, day, RandomClock(r));
  static constexpr char characters[] = "0123456789-:TWJG+.,MD ";
  for (int k = Int(r, 0, 3); k > 0; --k) {
    std::size_t const i = r() % (s.size() + 1);
    char const c = characters[r() % (sizeof(characters) - 1)];
    switch (Int(r, 0, 2)) {
      case 0: s.insert(i, 1, c); break;
      case 1: if (i < s.size()) { s.erase(i, 1); } break;
      case 2: if (i < s.size()) { s[i] = c; } break;
    }
  }
  SetCase("string " + s);
  Case("string " + s);
  // A copy whose end is watched.
  std::vector<char> const exact(s.c_str(), s.c_str() + s.size() + 1);
  auto const d = Try([&] {
    return principia::astronomy::_date_time::operator""_DateTime(
        exact.data(), s.size());
  });
  Count(d ? "strings accepted" : "strings refused", 1);
  if (d) {
    auto const& t = d->time();
    std::string const printed = Print(*d);
    auto const again = Try([&] {
      return principia::astronomy::_date_time::operator""_DateTime(
          printed.c_str(), printed.size());
    });
    VERIF(again.has_value() && *again == *d && !(*again != *d),
          "strings:round trip", printed);
    VERIF(!t.is_leap_second() ||
              d->date().day() == MonthLength(d->date().calendar(),
                                             d->date().year(),
                                             d->date().month()),
          "strings:leap second", "");
    if (t.is_end_of_day()) {
      DateTime const normalized = d->normalized_end_of_day();
      VERIF(normalized == *d && normalized.time().hour() == 0 &&
                normalized.date().jd() == d->date().jd() + 1,
            "strings:end of day", Print(normalized));
    }
  }
}

void Run() {
  absl::shim::SetThreadFatalMode(absl::shim::FatalMode::Throw);
  if (Selected("dates")) {
    Rng r = MakeRng("dates");
    for (int i = 0, n = N(3000); i < n; ++i) {
      DateCase(r);
    }
    AllDays();
    Rng r2 = MakeRng("times");
    for (int i = 0, n = N(3000); i < n; ++i) {
      TimeCase(r2);
    }
    Rng r3 = MakeRng("strings");
    for (int i = 0, n = N(5000); i < n; ++i) {
      StringCase(r3);
    }
  }
  if (Selected("scales")) {
    Rng r = MakeRng("scales");
    for (int i = 0, n = N(4000); i < n; ++i) {
      ScaleCase(r);
    }
    Rng r3 = MakeRng("leaps");
    for (int year = 1961; year <= 2022; ++year) {
      LeapsCase(r3, year);
    }
    Rng r2 = MakeRng("rounding");
    for (int i = 0, n = N(5000); i < n; ++i) {
      RoundingCase(r2);
    }
  }
}

}  // namespace

VERIF_MAIN(Run)
