//! The LAS public header block and variable length records as they are stored.
use crate::{Error, Result, Version};
use std::io::{Read, Write};

pub(crate) fn string_of(bytes: &[u8]) -> String {
    let end = bytes.iter().position(|&b| b == 0).unwrap_or(bytes.len());
    String::from_utf8_lossy(&bytes[..end]).into_owned()
}
pub(crate) fn fill(out: &mut [u8], s: &str) -> Result<()> {
    if s.len() > out.len() {
        return Err(Error::Header(format!("string too long: {s}")));
    }
    out[..s.len()].copy_from_slice(s.as_bytes());
    Ok(())
}
pub(crate) fn size_for(version: Version) -> u16 {
    match version.minor {
        0..=2 => 227,
        3 => 235,
        _ => 375,
    }
}

trait Prim: Copy + Default {
    fn put(self, w: &mut dyn Write) -> std::io::Result<()>;
    fn get(r: &mut dyn Read) -> std::io::Result<Self>;
}
macro_rules! prim {
    ($($t:ty)*) => {$(
        impl Prim for $t {
            fn put(self, w: &mut dyn Write) -> std::io::Result<()> {
                w.write_all(&self.to_le_bytes())
            }
            fn get(r: &mut dyn Read) -> std::io::Result<Self> {
                let mut b = [0; std::mem::size_of::<$t>()];
                r.read_exact(&mut b)?;
                Ok(<$t>::from_le_bytes(b))
            }
        }
    )*};
}
prim!(u8 u16 u32 u64 f64);

#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct LargeFile {
    pub number_of_point_records: u64,
    pub number_of_points_by_return: [u64; 15],
}
#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Evlr {
    pub start_of_first_evlr: u64,
    pub number_of_evlrs: u32,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Header {
    pub file_signature: [u8; 4],
    pub file_source_id: u16,
    pub global_encoding: u16,
    pub guid: [u8; 16],
    pub version: Version,
    pub system_identifier: [u8; 32],
    pub generating_software: [u8; 32],
    pub file_creation_day_of_year: u16,
    pub file_creation_year: u16,
    pub header_size: u16,
    pub offset_to_point_data: u32,
    pub number_of_variable_length_records: u32,
    pub point_data_record_format: u8,
    pub point_data_record_length: u16,
    pub number_of_point_records: u32,
    pub number_of_points_by_return: [u32; 5],
    pub x_scale_factor: f64,
    pub y_scale_factor: f64,
    pub z_scale_factor: f64,
    pub x_offset: f64,
    pub y_offset: f64,
    pub z_offset: f64,
    pub max_x: f64,
    pub min_x: f64,
    pub max_y: f64,
    pub min_y: f64,
    pub max_z: f64,
    pub min_z: f64,
    pub start_of_waveform_data_packet_record: Option<u64>,
    pub evlr: Option<Evlr>,
    pub large_file: Option<LargeFile>,
    pub padding: Vec<u8>,
}
impl Default for Header {
    fn default() -> Self {
        Self {
            file_signature: *b"LASF",
            file_source_id: 0,
            global_encoding: 0,
            guid: [0; 16],
            version: Version::new(1, 4),
            system_identifier: [0; 32],
            generating_software: [0; 32],
            file_creation_day_of_year: 0,
            file_creation_year: 0,
            header_size: 375,
            offset_to_point_data: 375,
            number_of_variable_length_records: 0,
            point_data_record_format: 0,
            point_data_record_length: 20,
            number_of_point_records: 0,
            number_of_points_by_return: [0; 5],
            x_scale_factor: 0.0,
            y_scale_factor: 0.0,
            z_scale_factor: 0.0,
            x_offset: 0.0,
            y_offset: 0.0,
            z_offset: 0.0,
            max_x: 0.0,
            min_x: 0.0,
            max_y: 0.0,
            min_y: 0.0,
            max_z: 0.0,
            min_z: 0.0,
            start_of_waveform_data_packet_record: None,
            evlr: None,
            large_file: None,
            padding: Vec::new(),
        }
    }
}
macro_rules! fields {
    ($h:expr, $f:ident, $io:expr) => {
        $f!($h.file_creation_day_of_year, $io);
        $f!($h.file_creation_year, $io);
        $f!($h.header_size, $io);
        $f!($h.offset_to_point_data, $io);
        $f!($h.number_of_variable_length_records, $io);
        $f!($h.point_data_record_format, $io);
        $f!($h.point_data_record_length, $io);
        $f!($h.number_of_point_records, $io);
        for i in 0..5 {
            $f!($h.number_of_points_by_return[i], $io);
        }
        $f!($h.x_scale_factor, $io);
        $f!($h.y_scale_factor, $io);
        $f!($h.z_scale_factor, $io);
        $f!($h.x_offset, $io);
        $f!($h.y_offset, $io);
        $f!($h.z_offset, $io);
        $f!($h.max_x, $io);
        $f!($h.min_x, $io);
        $f!($h.max_y, $io);
        $f!($h.min_y, $io);
        $f!($h.max_z, $io);
        $f!($h.min_z, $io);
    };
}
macro_rules! put {
    ($field:expr, $io:expr) => {
        Prim::put($field, $io)?
    };
}
macro_rules! get {
    ($field:expr, $io:expr) => {
        $field = Prim::get($io)?
    };
}
impl Header {
    pub fn read_from<R: Read>(mut reader: R) -> Result<Header> {
        let r: &mut dyn Read = &mut reader;
        let mut h = Header::default();
        r.read_exact(&mut h.file_signature)?;
        if h.file_signature != *b"LASF" {
            return Err(Error::Header("wrong file signature".into()));
        }
        get!(h.file_source_id, r);
        get!(h.global_encoding, r);
        r.read_exact(&mut h.guid)?;
        get!(h.version.major, r);
        get!(h.version.minor, r);
        r.read_exact(&mut h.system_identifier)?;
        r.read_exact(&mut h.generating_software)?;
        fields!(h, get, r);
        if h.version.minor >= 3 {
            h.start_of_waveform_data_packet_record = Some(Prim::get(r)?);
        }
        if h.version.minor >= 4 {
            let mut evlr = Evlr::default();
            get!(evlr.start_of_first_evlr, r);
            get!(evlr.number_of_evlrs, r);
            h.evlr = Some(evlr);
            let mut large = LargeFile::default();
            get!(large.number_of_point_records, r);
            for i in 0..15 {
                get!(large.number_of_points_by_return[i], r);
            }
            h.large_file = Some(large);
        }
        let rest = h
            .header_size
            .checked_sub(size_for(h.version))
            .ok_or_else(|| Error::Header("header size too small".into()))?;
        h.padding = vec![0; rest as usize];
        r.read_exact(&mut h.padding)?;
        Ok(h)
    }
    pub fn write_to<W: Write>(&self, mut writer: W) -> Result<()> {
        let w: &mut dyn Write = &mut writer;
        w.write_all(&self.file_signature)?;
        put!(self.file_source_id, w);
        put!(self.global_encoding, w);
        w.write_all(&self.guid)?;
        put!(self.version.major, w);
        put!(self.version.minor, w);
        w.write_all(&self.system_identifier)?;
        w.write_all(&self.generating_software)?;
        fields!(self, put, w);
        if self.version.minor >= 3 {
            put!(self.start_of_waveform_data_packet_record.unwrap_or(0), w);
        }
        if self.version.minor >= 4 {
            let evlr = self.evlr.unwrap_or_default();
            put!(evlr.start_of_first_evlr, w);
            put!(evlr.number_of_evlrs, w);
            let large = self.large_file.unwrap_or_default();
            put!(large.number_of_point_records, w);
            for n in large.number_of_points_by_return {
                put!(n, w);
            }
        }
        w.write_all(&self.padding)?;
        Ok(())
    }
}

pub mod vlr {
    #[derive(Clone, Copy, Debug, PartialEq)]
    pub enum RecordLength {
        Vlr(u16),
        ExtendedVlr(u64),
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Vlr {
    pub reserved: u16,
    pub user_id: [u8; 16],
    pub record_id: u16,
    pub record_length_after_header: vlr::RecordLength,
    pub description: [u8; 32],
    pub data: Vec<u8>,
}
impl Default for Vlr {
    fn default() -> Self {
        Self {
            reserved: 0,
            user_id: [0; 16],
            record_id: 0,
            record_length_after_header: vlr::RecordLength::Vlr(0),
            description: [0; 32],
            data: Vec::new(),
        }
    }
}
impl Vlr {
    pub fn read_from<R: Read>(mut reader: R, extended: bool) -> Result<Vlr> {
        let r: &mut dyn Read = &mut reader;
        let mut v = Vlr::default();
        get!(v.reserved, r);
        r.read_exact(&mut v.user_id)?;
        get!(v.record_id, r);
        let len = if extended {
            let n: u64 = Prim::get(r)?;
            v.record_length_after_header = vlr::RecordLength::ExtendedVlr(n);
            n
        } else {
            let n: u16 = Prim::get(r)?;
            v.record_length_after_header = vlr::RecordLength::Vlr(n);
            n as u64
        };
        r.read_exact(&mut v.description)?;
        let read = r.take(len).read_to_end(&mut v.data)?;
        if read as u64 != len {
            return Err(Error::Header("VLR data is cut short".into()));
        }
        Ok(v)
    }
    pub fn write_to<W: Write>(&self, mut writer: W) -> Result<()> {
        let w: &mut dyn Write = &mut writer;
        put!(self.reserved, w);
        w.write_all(&self.user_id)?;
        put!(self.record_id, w);
        match self.record_length_after_header {
            vlr::RecordLength::Vlr(n) => put!(n, w),
            vlr::RecordLength::ExtendedVlr(n) => put!(n, w),
        }
        w.write_all(&self.description)?;
        w.write_all(&self.data)?;
        Ok(())
    }
}
