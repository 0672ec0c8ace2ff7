"""Contracts assumed of standard library functions that vstd does not specify.
Only those whose name occurs in the extracted code are put into the verified text (and so into the list of trusted contracts)."""
import re

BITS = {"i8": 8, "i16": 16, "u128": 128, "i128": 128, "u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "i32": 32, "i64": 64, "isize": 64}


def table():
    t = []

    def a(name, decl, call=None):
        t.append((call or name, "pub assume_specification%s;" % decl))

    for x, b in BITS.items():
        u = x[0] == "u"
        ux = "u" + x[1:] if not u else x
        if not u:
            for m, op in (("add", "+"), ("sub", "-"), ("mul", "*")):
                v = "(a as int %s b as int)" % op
                a("saturating_" + m, "[ %s::saturating_%s ](a: %s, b: %s) -> (r: %s) ensures r as int == (if %s > %s::MAX { %s::MAX as int } else if %s < %s::MIN { %s::MIN as int } else { %s })" % (x, m, x, x, x, v, x, x, v, x, x, v))
            a("abs", "[ %s::abs ](a: %s) -> (r: %s) requires a > %s::MIN, ensures r as int == (if a < 0 { -(a as int) } else { a as int })" % (x, x, x, x))
            a("unsigned_abs", "[ %s::unsigned_abs ](a: %s) -> (r: %s) ensures r as int == (if a < 0 { -(a as int) } else { a as int })" % (x, x, ux))
            a("signum", "[ %s::signum ](a: %s) -> (r: %s) ensures r == (if a < 0 { -1 } else if a == 0 { 0int } else { 1 })" % (x, x, x))
            a("is_positive", "[ %s::is_positive ](a: %s) -> (r: bool) ensures r == (a > 0)" % (x, x))
            a("is_negative", "[ %s::is_negative ](a: %s) -> (r: bool) ensures r == (a < 0)" % (x, x))
            a("wrapping_neg", "[ %s::wrapping_neg ](a: %s) -> (r: %s) ensures r as int == (if a == %s::MIN { a as int } else { -(a as int) })" % (x, x, x, x))
        else:
            a("is_power_of_two", "[ %s::is_power_of_two ](a: %s) -> (r: bool) ensures r == (a != 0 && a & sub(a, 1) == 0)" % (x, x))
            a("wrapping_neg", "[ %s::wrapping_neg ](a: %s) -> (r: %s) ensures r as int == (if a == 0 { 0 } else { %s::MAX - a + 1 })" % (x, x, x, x))
            a("div_ceil", "[ %s::div_ceil ](a: %s, b: %s) -> (r: %s) requires b != 0, ensures r as int == (a + b - 1) / b as int" % (x, x, x, x))
            a("next_multiple_of", "[ %s::next_multiple_of ](a: %s, b: %s) -> (r: %s) requires b != 0, (a + b - 1) / b as int * b <= %s::MAX, ensures r as int == (a + b - 1) / b as int * b" % (x, x, x, x, x))
        a("abs_diff", "[ %s::abs_diff ](a: %s, b: %s) -> (r: %s) ensures r as int == (if a < b { b - a } else { a - b })" % (x, x, x, ux))
        a("rem_euclid", "[ %s::rem_euclid ](a: %s, b: %s) -> (r: %s) requires b != 0%s, ensures r as int == a as int %% b as int" % (x, x, x, x, "" if u else ", a > %s::MIN || b != -1" % x))
        a("div_euclid", "[ %s::div_euclid ](a: %s, b: %s) -> (r: %s) requires b != 0%s, ensures r as int == a as int / b as int" % (x, x, x, x, "" if u else ", a > %s::MIN || b != -1" % x))
        a("pow", "[ %s::pow ](a: %s, n: u32) -> (r: %s) requires %s::MIN <= vstd::arithmetic::power::pow(a as int, n as nat) <= %s::MAX, ensures r as int == vstd::arithmetic::power::pow(a as int, n as nat)" % (x, x, x, x, x))
        for m, op in (("add", "+"), ("sub", "-")):
            a("overflowing_" + m, "[ %s::overflowing_%s ](a: %s, b: %s) -> (r: (%s, bool)) ensures r.1 == !(%s::MIN <= a %s b <= %s::MAX), !r.1 ==> r.0 as int == a %s b, r.1 && a %s b > %s::MAX ==> r.0 as int == a %s b - %s::MAX + %s::MIN - 1, r.1 && a %s b < %s::MIN ==> r.0 as int == a %s b + %s::MAX - %s::MIN + 1" % (x, m, x, x, x, x, op, x, op, op, x, op, x, x, op, x, op, x, x))
        for m, op in (("shl", "<<"), ("shr", ">>")):
            a("checked_" + m, "[ %s::checked_%s ](a: %s, n: u32) -> (r: Option<%s>) ensures r == (if n < %d { Some(a %s n) } else { None })" % (x, m, x, x, b, op))
    for m in ("leading_zeros", "trailing_zeros", "leading_ones", "trailing_ones"):
        a(m, "[ usize::%s ](a: usize) -> (r: u32) ensures r == vstd::std_specs::bits::u64_%s(a as u64)" % (m, m))
    a("swap", "<T>[ <[T]>::swap ](s: &mut [T], a: usize, b: usize) requires a < old(s)@.len(), b < old(s)@.len(), ensures final(s)@ == old(s)@.update(a as int, old(s)@[b as int]).update(b as int, old(s)@[a as int])")
    a("reverse", "<T>[ <[T]>::reverse ](s: &mut [T]) ensures final(s)@ == Seq::new(old(s)@.len(), |i: int| old(s)@[old(s)@.len() - 1 - i])")
    a("fill", "<T: Clone>[ <[T]>::fill ](s: &mut [T], x: T) ensures final(s)@.len() == old(s)@.len(), forall|i: int| 0 <= i < final(s)@.len() ==> cloned::<T>(x, #[trigger] final(s)@[i])")
    a("replace", "<T>[ core::mem::replace ](a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b", "mem::replace")
    a("replace", "<T>[ Option::<T>::replace ](a: &mut Option<T>, b: T) -> (r: Option<T>) ensures r == *old(a), *final(a) == Some(b)")
    a("or", "<T>[ Option::<T>::or ](a: Option<T>, b: Option<T>) -> (r: Option<T>) ensures r == (if a.is_some() { a } else { b })")
    a("xor", "<T>[ Option::<T>::xor ](a: Option<T>, b: Option<T>) -> (r: Option<T>) ensures r == (if a.is_some() && b.is_none() { a } else if a.is_none() && b.is_some() { b } else { None })")
    a("then_some", "<T>[ bool::then_some ](c: bool, x: T) -> (r: Option<T>) ensures r == (if c { Some(x) } else { None })")
    return t


def used(text):
    """the declarations for the names that occur in `text`"""
    out = []
    for name, decl in table():
        if "::" in name:
            if re.search(r"\b%s\s*(::<[^>]*>)?\s*\(" % re.escape(name), text):
                out.append(decl)
        elif re.search(r"(\.|::)\s*%s\s*\(" % name, text):
            out.append(decl)
    return out


if __name__ == "__main__":
    print("use vstd::prelude::*;\nverus! {\nglobal size_of usize == 8;\n" + "\n".join(d for _, d in table()) + "\nfn main() {}\n}")
