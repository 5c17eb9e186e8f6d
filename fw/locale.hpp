// Runs part of a case in a locale with a decimal comma. run.py builds that locale for checks with "// LOCALE: yes".
#pragma once
#include <clocale>
#include <locale.h>
namespace locales {
struct Comma {
    bool on = false;
    explicit Comma(bool use) { if (!use) return; if (!setlocale(LC_ALL, "de_DE.UTF-8")) throw pbt::Discard(); on = true; }
    ~Comma() { if (on) setlocale(LC_ALL, "C"); }
    // still as it was set
    void check(pbt::Ctx& c) const { if (on) c.check(std::string(localeconv()->decimal_point) == "," && uselocale((locale_t)0) == LC_GLOBAL_LOCALE, "the locale of the process was changed"); }
};
}
