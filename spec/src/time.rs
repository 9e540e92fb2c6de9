use crate::character_sets::*;
use crate::types::*;
use crate::whitespaces::*;

/// day-name, in any letter case
pub fn day_name(i: &[u8]) -> P<'_, Day> {
    let day = if named(i, b"mon") {
        Day::Monday
    } else if named(i, b"tue") {
        Day::Tuesday
    } else if named(i, b"wed") {
        Day::Wednesday
    } else if named(i, b"thu") {
        Day::Thursday
    } else if named(i, b"fri") {
        Day::Friday
    } else if named(i, b"sat") {
        Day::Saturday
    } else if named(i, b"sun") {
        Day::Sunday
    } else {
        return no();
    };
    Ok((&i[3..], day))
}

/// month, in any letter case
pub fn month(i: &[u8]) -> P<'_, Month> {
    let month = if named(i, b"jan") {
        Month::January
    } else if named(i, b"feb") {
        Month::February
    } else if named(i, b"mar") {
        Month::March
    } else if named(i, b"apr") {
        Month::April
    } else if named(i, b"may") {
        Month::May
    } else if named(i, b"jun") {
        Month::June
    } else if named(i, b"jul") {
        Month::July
    } else if named(i, b"aug") {
        Month::August
    } else if named(i, b"sep") {
        Month::September
    } else if named(i, b"oct") {
        Month::October
    } else if named(i, b"nov") {
        Month::November
    } else if named(i, b"dec") {
        Month::December
    } else {
        return no();
    };
    Ok((&i[3..], month))
}

/// day-of-week "," where day-of-week = [FWS] day-name
pub fn day_of_week(i: &[u8]) -> P<'_, Day> {
    let i = maybe!(i, fws);
    let (i, day) = day_name(i)?;
    let i = byte!(i, b',');
    Ok((i, day))
}

/// year = FWS 4*DIGIT FWS, 1900 or later
pub fn year(i: &[u8]) -> P<'_, usize> {
    let (i, _) = fws(i)?;
    let n = scan(i, is_digit);
    if n < 4 {
        return no();
    }
    let digits = unsafe { std::str::from_utf8_unchecked(&i[..n]) };
    let year: usize = match digits.parse() {
        Ok(y) => y,
        Err(_) => return no(),
    };
    if year < 1900 {
        return no();
    }
    let (i, _) = fws(&i[n..])?;
    Ok((i, year))
}

/// day = [FWS] 1*2DIGIT FWS, in 1..=31
pub fn day(i: &[u8]) -> P<'_, u8> {
    let i = maybe!(i, fws);
    if i.len() == 0 || !is_digit(i[0]) {
        return no();
    }
    let mut day = i[0] - b'0';
    let mut i = &i[1..];
    if i.len() > 0 && is_digit(i[0]) {
        day = day * 10 + (i[0] - b'0');
        i = &i[1..];
    }
    if day < 1 || day > 31 {
        return no();
    }
    let (i, _) = fws(i)?;
    Ok((i, day))
}

/// hour ":" minute [":" second]; what follows the minutes is left alone when it is not a second
pub fn time_of_day(i: &[u8]) -> P<'_, Time> {
    let (i, hour) = two_digits(i)?;
    if hour > 23 {
        return no();
    }
    let i = byte!(i, b':');
    let (i, minute) = two_digits(i)?;
    if minute > 59 {
        return no();
    }
    if starts(i, b':') {
        if let Ok((rest, second)) = two_digits(&i[1..]) {
            if second > 60 {
                return no();
            }
            return Ok((rest, Time { hour, minute, second }));
        }
    }
    Ok((i, Time { hour, minute, second: 0 }))
}

/// zone = FWS ("+" / "-") 4DIGIT
pub fn zone(i: &[u8]) -> P<'_, Zone> {
    let (i, _) = fws(i)?;
    let sign = if starts(i, b'+') {
        true
    } else if starts(i, b'-') {
        false
    } else {
        return no();
    };
    let (i, hour_offset) = two_digits(&i[1..])?;
    let (i, minute_offset) = two_digits(i)?;
    if minute_offset > 59 {
        return no();
    }
    Ok((i, Zone { sign, hour_offset, minute_offset }))
}

/// time = time-of-day zone
pub fn time(i: &[u8]) -> P<'_, TimeWithZone> {
    let (i, time) = time_of_day(i)?;
    let (i, zone) = zone(i)?;
    Ok((i, TimeWithZone { time, zone }))
}

/// date = day month year
pub fn date(i: &[u8]) -> P<'_, Date> {
    let (i, day) = day(i)?;
    let (i, month) = month(i)?;
    let (i, year) = year(i)?;
    Ok((i, Date { day, month, year }))
}

/// date-time = [day-of-week ","] date time [CFWS]
pub fn date_time(i: &[u8]) -> P<'_, DateTime> {
    let (i, day_name) = match day_of_week(i) {
        Ok((rest, d)) => (rest, Some(d)),
        Err(_) => (i, None),
    };
    let (i, date) = date(i)?;
    let (i, time) = time(i)?;
    Ok((maybe!(i, cfws), DateTime { day_name, date, time }))
}
