//! Stand-in for the `laz` crate: the interface pasture-io uses, with records stored uncompressed.
//! Like a LAZ file: eight bytes with the offset of the trailer ("chunk table"), the records, the trailer.
use std::io::{Error, ErrorKind, Read, Seek, SeekFrom, Write};
use std::marker::PhantomData;

#[derive(Debug)]
pub enum LasZipError {
    UnknownLazItem(u16),
    UnsupportedPointFormat(u8),
    IoError(Error),
}
impl std::fmt::Display for LasZipError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl From<Error> for LasZipError {
    fn from(e: Error) -> Self {
        Self::IoError(e)
    }
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub struct LazItem {
    pub item_type: u16,
    pub size: u16,
}

pub struct LazItemRecordBuilder;
impl LazItemRecordBuilder {
    pub fn default_for_point_format_id(format: u8, extra_bytes: u16) -> Result<Vec<LazItem>, LasZipError> {
        let mut items: Vec<LazItem> = Vec::new();
        let mut add = |item_type, size| items.push(LazItem { item_type, size });
        match format {
            0..=5 => {
                add(6, 20);
                if matches!(format, 1 | 3 | 4 | 5) {
                    add(7, 8);
                }
                if matches!(format, 2 | 3 | 5) {
                    add(8, 6);
                }
                if matches!(format, 4 | 5) {
                    add(9, 29);
                }
            }
            6..=10 => {
                add(10, 30);
                if matches!(format, 7) {
                    add(11, 6);
                }
                if matches!(format, 8 | 10) {
                    add(12, 8);
                }
                if matches!(format, 9 | 10) {
                    add(13, 29);
                }
            }
            _ => return Err(LasZipError::UnsupportedPointFormat(format)),
        }
        if extra_bytes > 0 {
            add(if format > 5 { 14 } else { 0 }, extra_bytes);
        }
        Ok(items)
    }
}

#[derive(Debug, Clone)]
pub struct LazVlr {
    items: Vec<LazItem>,
}
impl LazVlr {
    pub const USER_ID: &'static str = "laszip encoded";
    pub const RECORD_ID: u16 = 22204;
    pub const DESCRIPTION: &'static str = "https://laszip.org";

    pub fn from_laz_items(items: Vec<LazItem>) -> Self {
        Self { items }
    }
    pub fn from_buffer(buffer: &[u8]) -> Result<Self, LasZipError> {
        let bad = || LasZipError::IoError(Error::new(ErrorKind::InvalidData, "laszip VLR"));
        let u16_at = |at: usize| buffer.get(at..at + 2).map(|b| u16::from_le_bytes([b[0], b[1]])).ok_or_else(bad);
        let count = u16_at(0)? as usize;
        let items = (0..count)
            .map(|i| Ok(LazItem { item_type: u16_at(2 + i * 4)?, size: u16_at(4 + i * 4)? }))
            .collect::<Result<_, LasZipError>>()?;
        Ok(Self { items })
    }
    pub fn write_to<W: Write>(&self, w: &mut W) -> std::io::Result<()> {
        w.write_all(&(self.items.len() as u16).to_le_bytes())?;
        for item in &self.items {
            w.write_all(&item.item_type.to_le_bytes())?;
            w.write_all(&item.size.to_le_bytes())?;
        }
        Ok(())
    }
    pub fn items_size(&self) -> u64 {
        self.items.iter().map(|i| i.size as u64).sum()
    }
}

pub mod las {
    pub mod laszip {
        pub use crate::{LasZipCompressor, LasZipDecompressor, LazVlr};
    }
}

fn whole_points(len: usize, size: u64) -> std::io::Result<()> {
    if size == 0 || len as u64 % size != 0 {
        return Err(Error::new(ErrorKind::InvalidInput, "buffer is not a whole number of points"));
    }
    Ok(())
}

pub struct LasZipDecompressor<'a, R: Read + Seek + Send + 'a> {
    inner: R,
    start: u64,
    size: u64,
    lifetime: PhantomData<&'a ()>,
}
impl<'a, R: Read + Seek + Send + 'a> LasZipDecompressor<'a, R> {
    pub fn new(mut inner: R, vlr: LazVlr) -> Result<Self, LasZipError> {
        let start = inner.stream_position()?;
        let mut table = [0u8; 8];
        inner.read_exact(&mut table)?;
        Ok(Self { inner, start, size: vlr.items_size(), lifetime: PhantomData })
    }
    pub fn decompress_many(&mut self, out: &mut [u8]) -> std::io::Result<()> {
        whole_points(out.len(), self.size)?;
        self.inner.read_exact(out)
    }
    pub fn seek(&mut self, point: u64) -> std::io::Result<()> {
        self.inner.seek(SeekFrom::Start(self.start + 8 + point * self.size)).map(|_| ())
    }
}

pub struct LasZipCompressor<'a, W: Write + Seek + Send + 'a> {
    inner: W,
    start: u64,
    size: u64,
    lifetime: PhantomData<&'a ()>,
}
impl<'a, W: Write + Seek + Send + 'a> LasZipCompressor<'a, W> {
    pub fn new(mut inner: W, vlr: LazVlr) -> Result<Self, LasZipError> {
        let start = inner.stream_position()?;
        inner.write_all(&(-1i64).to_le_bytes())?;
        Ok(Self { inner, start, size: vlr.items_size(), lifetime: PhantomData })
    }
    pub fn compress_many(&mut self, points: &[u8]) -> std::io::Result<()> {
        whole_points(points.len(), self.size)?;
        self.inner.write_all(points)
    }
    pub fn done(&mut self) -> std::io::Result<()> {
        let end = self.inner.stream_position()?;
        self.inner.seek(SeekFrom::Start(self.start))?;
        self.inner.write_all(&end.to_le_bytes())?;
        self.inner.seek(SeekFrom::Start(end))?;
        self.inner.write_all(b"CHUNKTBL")
    }
    pub fn get_mut(&mut self) -> &mut W {
        &mut self.inner
    }
    pub fn into_inner(self) -> W {
        self.inner
    }
}
