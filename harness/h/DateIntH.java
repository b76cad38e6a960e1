package h;

import com.bytefacets.collections.types.IntType;
import java.time.DateTimeException;
import java.time.LocalDate;
import java.time.LocalTime;
import java.util.Date;
import sx.Sym;

/** Dates and times coded as integers, over all of them. */
public final class DateIntH {
    private DateIntH() {}

    private static LocalDate date(final int year) {
        final int month = Sym.choose(12) + 1;
        final int day = Sym.range(1, 31);
        try {
            return LocalDate.of(year, month, day);
        } catch (DateTimeException e) {
            Sym.prune();
            return null;
        }
    }

    private static LocalTime time() {
        return LocalTime.of(Sym.choose(24), Sym.range(0, 59), Sym.range(0, 59), Sym.range(0, 999_999_999));
    }

    /** A date that tells the given fields, whatever the time zone. */
    private static final class Fields extends Date {
        private final int year;
        private final int month;
        private final int day;

        Fields(final int year, final int month, final int day) {
            super(0);
            this.year = year;
            this.month = month;
            this.day = day;
        }

        @Override
        public int getYear() {
            return year - 1900;
        }

        @Override
        public int getMonth() {
            return month - 1;
        }

        @Override
        public int getDate() {
            return day;
        }
    }

    public static void run() {
        switch (Sym.param("part", 0)) {
            case 0: {
                final LocalDate d = date(Sym.range(0, 9999));
                Sym.cover("date");
                final int n = IntType.fromLocalDate(d);
                Sym.observe(n);
                Sym.checkEq(n, d.getYear() * 10000 + d.getMonthValue() * 100 + d.getDayOfMonth(), "the digits read yyyyMMdd");
                Sym.checkEq(IntType.convert(d), n, "convert of a date");
                Sym.checkEq(IntType.toYYYMMDD(d.getYear(), d.getMonthValue(), d.getDayOfMonth()), n, "toYYYMMDD");
                Sym.checkEq(IntType.fromSqlDate(new Fields(d.getYear(), d.getMonthValue(), d.getDayOfMonth())), n, "the code of a Date");
                final LocalDate back = IntType.toLocalDate(n);
                Sym.checkEq(back.getYear(), d.getYear(), "the year of the date read back");
                Sym.checkEq(back.getMonthValue(), d.getMonthValue(), "the month of the date read back");
                Sym.checkEq(back.getDayOfMonth(), d.getDayOfMonth(), "the day of the date read back");
                break;
            }
            case 1: {
                final int year = Sym.range(0, 9999);
                final int later = Sym.choose(2) == 0 ? 0 : Sym.range(1, 9999);
                Sym.assume(year + later <= 9999);
                final LocalDate a = date(year);
                final LocalDate b = date(year + later);
                final int x = IntType.fromLocalDate(a);
                final int y = IntType.fromLocalDate(b);
                Sym.checkEq(x < y, a.isBefore(b), "the order of the codes is the order of the dates");
                Sym.checkEq(y < x, b.isBefore(a), "the order of the codes is the order of the dates");
                Sym.checkEq(x == y, a.isEqual(b), "different dates have different codes");
                break;
            }
            case 2: {
                final int n = Sym.anyInt();
                LocalDate d;
                try {
                    d = IntType.toLocalDate(n);
                } catch (DateTimeException e) {
                    d = null;
                    Sym.cover("no date");
                }
                if (d != null) {
                    Sym.cover("date read");
                    Sym.checkEq(IntType.fromLocalDate(d), n, "an int that is read as a date is its code");
                    Sym.check(n >= 0, "a negative int is no date");
                }
                break;
            }
            case 3: {
                final LocalTime t = time();
                Sym.cover("time");
                final int n = IntType.fromLocalTime(t);
                Sym.observe(n);
                Sym.checkEq(n, t.getHour() * 10000 + t.getMinute() * 100 + t.getSecond(), "the digits read HHmmss");
                Sym.checkEq(IntType.convert(t), n, "convert of a time");
                Sym.checkEq(IntType.toHHMMSS(t.getHour(), t.getMinute(), t.getSecond()), n, "toHHMMSS");
                final LocalTime back = IntType.toLocalTime(n);
                Sym.checkEq(back.getHour(), t.getHour(), "the hour of the time read back");
                Sym.checkEq(back.getMinute(), t.getMinute(), "the minute of the time read back");
                Sym.checkEq(back.getSecond(), t.getSecond(), "the second of the time read back");
                Sym.checkEq(back.getNano(), 0, "a time read back has whole seconds");
                break;
            }
            case 4: {
                final LocalTime a = time();
                final LocalTime b = time();
                final int x = IntType.fromLocalTime(a);
                final int y = IntType.fromLocalTime(b);
                Sym.checkEq(x < y, a.withNano(0).isBefore(b.withNano(0)), "the order of the codes is the order of the times");
                Sym.check(!(x < y) || a.isBefore(b), "the order of the codes is the order of the times");
                break;
            }
            default: {
                final int n = Sym.anyInt();
                LocalTime t;
                try {
                    t = IntType.toLocalTime(n);
                } catch (DateTimeException e) {
                    t = null;
                    Sym.cover("no time");
                }
                if (t != null) {
                    Sym.cover("time read");
                    Sym.checkEq(IntType.fromLocalTime(t), n, "an int that is read as a time is its code");
                    Sym.check(n >= 0 && n <= 235959, "an int beyond 235959 is no time");
                }
                break;
            }
        }
    }
}
