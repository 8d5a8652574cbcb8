//! Stand-in for the two `time` items the stamp formatter uses.
pub struct OffsetDateTime {
    nanos: i128,
}
#[derive(Debug)]
pub struct ErrRange;
pub mod format_description {
    pub mod well_known {
        pub struct Rfc2822;
    }
}
fn civil(days: i64) -> (i64, u32, u32) {
    let z = days + 719468;
    let era = z.div_euclid(146097);
    let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = (doy - (153 * mp + 2) / 5 + 1) as u32;
    let m = if mp < 10 { mp + 3 } else { mp - 9 } as u32;
    (yoe + era * 400 + (m <= 2) as i64, m, d)
}
impl OffsetDateTime {
    pub fn from_unix_timestamp_nanos(nanos: i128) -> Result<Self, ErrRange> {
        let secs = nanos.div_euclid(1_000_000_000);
        if !(-377705116800..=253402300799).contains(&secs) {
            return Err(ErrRange);
        }
        Ok(OffsetDateTime { nanos })
    }
    pub fn format(&self, _f: &format_description::well_known::Rfc2822) -> Result<String, ErrRange> {
        let secs = self.nanos.div_euclid(1_000_000_000) as i64;
        let days = secs.div_euclid(86400);
        let s = secs.rem_euclid(86400);
        let (y, m, d) = civil(days);
        if y < 1900 {
            return Err(ErrRange);
        }
        let wd = ["Thu", "Fri", "Sat", "Sun", "Mon", "Tue", "Wed"][days.rem_euclid(7) as usize];
        let mn = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"][m as usize - 1];
        Ok(format!("{wd}, {d:02} {mn} {y:04} {:02}:{:02}:{:02} +0000", s / 3600, s / 60 % 60, s % 60))
    }
}
