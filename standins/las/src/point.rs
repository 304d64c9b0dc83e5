//! Points and point formats.
use crate::{Error, Result};
use std::fmt;

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Format {
    pub has_gps_time: bool,
    pub has_color: bool,
    pub is_extended: bool,
    pub has_waveform: bool,
    pub has_nir: bool,
    pub extra_bytes: u16,
    pub is_compressed: bool,
}
impl Format {
    pub fn new(n: u8) -> Result<Format> {
        let (is_compressed, n) = (n & 0x80 != 0, n & 0x3f);
        if n > 10 {
            return Err(Error::InvalidPointFormat(n));
        }
        Ok(Format {
            has_gps_time: n == 1 || n >= 3,
            has_color: matches!(n, 2 | 3 | 5 | 7 | 8 | 10),
            is_extended: n > 5,
            has_waveform: matches!(n, 4 | 5 | 9 | 10),
            has_nir: matches!(n, 8 | 10),
            extra_bytes: 0,
            is_compressed,
        })
    }
    pub fn to_u8(&self) -> Result<u8> {
        (0..=10)
            .find(|&n| {
                let f = Format { extra_bytes: self.extra_bytes, is_compressed: self.is_compressed, ..Format::new(n).unwrap() };
                f == *self
            })
            .ok_or(Error::InvalidFormat(*self))
    }
    pub fn to_writable_u8(&self) -> Result<u8> {
        self.to_u8().map(|n| n | if self.is_compressed { 0x80 } else { 0 })
    }
    #[allow(clippy::len_without_is_empty)]
    pub fn len(&self) -> u16 {
        let mut len = if self.is_extended { 22 } else { 20 } + self.extra_bytes;
        len += if self.has_gps_time { 8 } else { 0 };
        len += if self.has_color { 6 } else { 0 };
        len += if self.has_nir { 2 } else { 0 };
        len += if self.has_waveform { 29 } else { 0 };
        len
    }
}
impl fmt::Display for Format {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.to_u8() {
            Ok(n) => write!(f, "point format {n}"),
            Err(_) => write!(f, "invalid point format: {self:?}"),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum ScanDirection {
    RightToLeft,
    LeftToRight,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Classification(pub u8);
impl From<Classification> for u8 {
    fn from(c: Classification) -> u8 {
        c.0
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Color {
    pub red: u16,
    pub green: u16,
    pub blue: u16,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Waveform {
    pub wave_packet_descriptor_index: u8,
    pub byte_offset_to_waveform_data: u64,
    pub waveform_packet_size_in_bytes: u32,
    pub return_point_waveform_location: f32,
    pub x_t: f32,
    pub y_t: f32,
    pub z_t: f32,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Point {
    pub x: f64,
    pub y: f64,
    pub z: f64,
    pub intensity: u16,
    pub return_number: u8,
    pub number_of_returns: u8,
    pub scan_direction: ScanDirection,
    pub is_edge_of_flight_line: bool,
    pub classification: Classification,
    pub scan_angle: f32,
    pub user_data: u8,
    pub point_source_id: u16,
    pub gps_time: Option<f64>,
    pub color: Option<Color>,
    pub waveform: Option<Waveform>,
    pub nir: Option<u16>,
    pub extra_bytes: Vec<u8>,
}
