//! Stand-in for the `las` crate: what pasture-io uses of it, written from the LAS 1.4 specification.
use chrono::{Datelike, NaiveDate};
use std::collections::HashMap;
use std::fmt;

pub mod point;
pub mod raw;
pub use point::Point;

#[derive(Debug)]
pub enum Error {
    InvalidPointFormat(u8),
    InvalidFormat(point::Format),
    Header(String),
    Io(std::io::Error),
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for Error {}
impl From<std::io::Error> for Error {
    fn from(e: std::io::Error) -> Self {
        Error::Io(e)
    }
}
pub type Result<T> = std::result::Result<T, Error>;

#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Vector<T> {
    pub x: T,
    pub y: T,
    pub z: T,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Transform {
    pub scale: f64,
    pub offset: f64,
}
impl Default for Transform {
    fn default() -> Self {
        Self { scale: 0.001, offset: 0.0 }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Bounds {
    pub min: Vector<f64>,
    pub max: Vector<f64>,
}
impl Default for Bounds {
    fn default() -> Self {
        let (hi, lo) = (f64::INFINITY, f64::NEG_INFINITY);
        Self { min: Vector { x: hi, y: hi, z: hi }, max: Vector { x: lo, y: lo, z: lo } }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Version {
    pub major: u8,
    pub minor: u8,
}
impl Version {
    pub fn new(major: u8, minor: u8) -> Self {
        Self { major, minor }
    }
}
impl From<(u8, u8)> for Version {
    fn from((major, minor): (u8, u8)) -> Self {
        Self { major, minor }
    }
}
impl fmt::Display for Version {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}.{}", self.major, self.minor)
    }
}

#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Guid(pub [u8; 16]);
impl fmt::Display for Guid {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.iter().try_for_each(|b| write!(f, "{b:02x}"))
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Vlr {
    pub user_id: String,
    pub record_id: u16,
    pub description: String,
    pub data: Vec<u8>,
}
impl Vlr {
    pub fn new(raw: raw::Vlr) -> Self {
        Self {
            user_id: raw::string_of(&raw.user_id),
            record_id: raw.record_id,
            description: raw::string_of(&raw.description),
            data: raw.data,
        }
    }
    pub fn has_large_data(&self) -> bool {
        self.data.len() > u16::MAX as usize
    }
    pub fn into_raw(self, is_extended: bool) -> Result<raw::Vlr> {
        let record_length_after_header = if is_extended {
            raw::vlr::RecordLength::ExtendedVlr(self.data.len() as u64)
        } else if self.has_large_data() {
            return Err(Error::Header("VLR data does not fit into 16 bits".into()));
        } else {
            raw::vlr::RecordLength::Vlr(self.data.len() as u16)
        };
        let mut vlr = raw::Vlr {
            reserved: 0,
            user_id: [0; 16],
            record_id: self.record_id,
            record_length_after_header,
            description: [0; 32],
            data: self.data,
        };
        raw::fill(&mut vlr.user_id, &self.user_id)?;
        raw::fill(&mut vlr.description, &self.description)?;
        Ok(vlr)
    }
}

#[derive(Clone, Debug)]
pub struct Header {
    file_source_id: u16,
    global_encoding: u16,
    guid: Guid,
    version: Version,
    system_identifier: String,
    generating_software: String,
    date: Option<NaiveDate>,
    padding: Vec<u8>,
    point_format: point::Format,
    number_of_points: u64,
    number_of_points_by_return: HashMap<u8, u64>,
    transforms: Vector<Transform>,
    bounds: Bounds,
    vlrs: Vec<Vlr>,
    evlrs: Vec<Vlr>,
    vlr_padding: Vec<u8>,
}
impl Header {
    pub fn file_source_id(&self) -> u16 {
        self.file_source_id
    }
    pub fn guid(&self) -> Guid {
        self.guid
    }
    pub fn version(&self) -> Version {
        self.version
    }
    pub fn system_identifier(&self) -> &str {
        &self.system_identifier
    }
    pub fn generating_software(&self) -> &str {
        &self.generating_software
    }
    pub fn date(&self) -> Option<NaiveDate> {
        self.date
    }
    pub fn padding(&self) -> &Vec<u8> {
        &self.padding
    }
    pub fn point_format(&self) -> &point::Format {
        &self.point_format
    }
    pub fn number_of_points(&self) -> u64 {
        self.number_of_points
    }
    pub fn number_of_points_by_return(&self, n: u8) -> Option<u64> {
        self.number_of_points_by_return.get(&n).copied()
    }
    pub fn transforms(&self) -> &Vector<Transform> {
        &self.transforms
    }
    pub fn bounds(&self) -> Bounds {
        self.bounds
    }
    pub fn vlrs(&self) -> &Vec<Vlr> {
        &self.vlrs
    }
    pub fn evlrs(&self) -> &Vec<Vlr> {
        &self.evlrs
    }
    pub fn vlr_padding(&self) -> &Vec<u8> {
        &self.vlr_padding
    }
    pub fn into_raw(self) -> Result<raw::Header> {
        let mut out = raw::Header { version: self.version, padding: self.padding.clone(), ..Default::default() };
        out.header_size = raw::size_for(self.version) + self.padding.len() as u16;
        out.file_source_id = self.file_source_id;
        out.global_encoding = self.global_encoding;
        out.guid = self.guid.0;
        raw::fill(&mut out.system_identifier, &self.system_identifier)?;
        raw::fill(&mut out.generating_software, &self.generating_software)?;
        if let Some(date) = self.date {
            out.file_creation_day_of_year = date.ordinal() as u16;
            out.file_creation_year = date.year() as u16;
        }
        let vlr_bytes: usize = self.vlrs.iter().map(|v| 54 + v.data.len()).sum();
        out.offset_to_point_data = out.header_size as u32 + vlr_bytes as u32 + self.vlr_padding.len() as u32;
        out.number_of_variable_length_records = self.vlrs.len() as u32;
        out.point_data_record_format = self.point_format.to_writable_u8()?;
        out.point_data_record_length = self.point_format.len();
        let by_return = |n: u8| self.number_of_points_by_return.get(&n).copied().unwrap_or(0);
        if !self.point_format.is_extended && self.number_of_points <= u32::MAX as u64 {
            out.number_of_point_records = self.number_of_points as u32;
            (0..5).for_each(|i| out.number_of_points_by_return[i] = by_return(i as u8 + 1) as u32);
        }
        let t = self.transforms;
        (out.x_scale_factor, out.y_scale_factor, out.z_scale_factor) = (t.x.scale, t.y.scale, t.z.scale);
        (out.x_offset, out.y_offset, out.z_offset) = (t.x.offset, t.y.offset, t.z.offset);
        let (min, max) = (self.bounds.min, self.bounds.max);
        (out.min_x, out.min_y, out.min_z) = (min.x, min.y, min.z);
        (out.max_x, out.max_y, out.max_z) = (max.x, max.y, max.z);
        if self.version.minor >= 4 {
            let mut large = raw::LargeFile { number_of_point_records: self.number_of_points, ..Default::default() };
            (0..15).for_each(|i| large.number_of_points_by_return[i] = by_return(i as u8 + 1));
            out.large_file = Some(large);
            out.evlr = Some(raw::Evlr { number_of_evlrs: self.evlrs.len() as u32, start_of_first_evlr: 0 });
        }
        Ok(out)
    }
}

#[derive(Clone, Debug)]
pub struct Builder {
    pub file_source_id: u16,
    pub guid: Guid,
    pub version: Version,
    pub system_identifier: String,
    pub generating_software: String,
    pub date: Option<NaiveDate>,
    pub padding: Vec<u8>,
    pub point_format: point::Format,
    pub transforms: Vector<Transform>,
    pub vlrs: Vec<Vlr>,
    pub evlrs: Vec<Vlr>,
    pub vlr_padding: Vec<u8>,
    global_encoding: u16,
    bounds: Bounds,
    number_of_points: u64,
    number_of_points_by_return: HashMap<u8, u64>,
}
impl<V: Into<Version>> From<V> for Builder {
    fn from(version: V) -> Self {
        Self {
            file_source_id: 0,
            guid: Guid::default(),
            version: version.into(),
            system_identifier: "stand-in".into(),
            generating_software: "stand-in".into(),
            date: NaiveDate::from_ymd_opt(2024, 2, 3),
            padding: Vec::new(),
            point_format: point::Format::new(0).unwrap(),
            transforms: Vector::default(),
            vlrs: Vec::new(),
            evlrs: Vec::new(),
            vlr_padding: Vec::new(),
            global_encoding: 0,
            bounds: Bounds::default(),
            number_of_points: 0,
            number_of_points_by_return: HashMap::new(),
        }
    }
}
impl Builder {
    pub fn new(raw: raw::Header) -> Result<Self> {
        let mut format = point::Format::new(raw.point_data_record_format)?;
        format.extra_bytes = raw
            .point_data_record_length
            .checked_sub(format.len())
            .ok_or_else(|| Error::Header("record length too small".into()))?;
        let mut by_return = HashMap::new();
        if raw.number_of_points_by_return.iter().any(|&n| n > 0) {
            raw.number_of_points_by_return.iter().enumerate().for_each(|(i, &n)| drop(by_return.insert(i as u8 + 1, n as u64)));
        } else if let Some(large) = raw.large_file {
            large.number_of_points_by_return.iter().enumerate().for_each(|(i, &n)| drop(by_return.insert(i as u8 + 1, n)));
        }
        let number_of_points = match raw.large_file {
            Some(large) if raw.number_of_point_records == 0 => large.number_of_point_records,
            _ => raw.number_of_point_records as u64,
        };
        Ok(Self {
            file_source_id: raw.file_source_id,
            guid: Guid(raw.guid),
            version: raw.version,
            system_identifier: raw::string_of(&raw.system_identifier),
            generating_software: raw::string_of(&raw.generating_software),
            date: NaiveDate::from_yo_opt(raw.file_creation_year as i32, raw.file_creation_day_of_year as u32),
            padding: raw.padding,
            point_format: format,
            transforms: Vector {
                x: Transform { scale: raw.x_scale_factor, offset: raw.x_offset },
                y: Transform { scale: raw.y_scale_factor, offset: raw.y_offset },
                z: Transform { scale: raw.z_scale_factor, offset: raw.z_offset },
            },
            vlrs: Vec::new(),
            evlrs: Vec::new(),
            vlr_padding: Vec::new(),
            global_encoding: raw.global_encoding,
            bounds: Bounds {
                min: Vector { x: raw.min_x, y: raw.min_y, z: raw.min_z },
                max: Vector { x: raw.max_x, y: raw.max_y, z: raw.max_z },
            },
            number_of_points,
            number_of_points_by_return: by_return,
        })
    }
    pub fn into_header(self) -> Result<Header> {
        self.point_format.to_u8()?;
        Ok(Header {
            file_source_id: self.file_source_id,
            global_encoding: self.global_encoding,
            guid: self.guid,
            version: self.version,
            system_identifier: self.system_identifier,
            generating_software: self.generating_software,
            date: self.date,
            padding: self.padding,
            point_format: self.point_format,
            number_of_points: self.number_of_points,
            number_of_points_by_return: self.number_of_points_by_return,
            transforms: self.transforms,
            bounds: self.bounds,
            vlrs: self.vlrs,
            evlrs: self.evlrs,
            vlr_padding: self.vlr_padding,
        })
    }
}
