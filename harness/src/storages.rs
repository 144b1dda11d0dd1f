//! Both storages, and the operations every storage provides.
use flatdata::*;
use std::io;
use std::io::{SeekFrom, Write};
use std::rc::Rc;

pub fn r_dyn_read<'a>(s: &'a ResourceStorage, name: &str, schema: &str) -> Result<&'a [u8], ResourceStorageError> {
    s.read(name, schema)
}
pub fn r_dyn_read_and_check<'a>(s: &'a ResourceStorage, name: &str, schema: &str) -> Result<&'a [u8], ResourceStorageError> {
    s.read_and_check_schema(name, schema)
}
pub fn r_dyn_write(s: &ResourceStorage, name: &str, schema: &str, data: &[u8]) -> io::Result<()> {
    s.write(name, schema, data)
}

macro_rules! backend {
    ($T:ident, $new:ident, $exists:ident, $rr:ident, $read:ident, $rcs:ident, $write:ident, $subdir:ident, $stream:ident, $streamw:ident, $parts:ident, $two:ident, $peek:ident, $over:ident) => {
        pub fn $new(path: std::path::PathBuf) -> Rc<$T> {
            $T::new(path)
        }
        pub fn $exists(s: &$T, name: &str) -> bool {
            s.exists(name)
        }
        pub fn $rr<'a>(s: &'a $T, name: &str) -> Result<&'a [u8], io::Error> {
            s.read_resource(name)
        }
        pub fn $read<'a>(s: &'a $T, name: &str, schema: &str) -> Result<&'a [u8], ResourceStorageError> {
            s.read(name, schema)
        }
        pub fn $rcs<'a>(s: &'a $T, name: &str, schema: &str) -> Result<&'a [u8], ResourceStorageError> {
            s.read_and_check_schema(name, schema)
        }
        pub fn $write(s: &$T, name: &str, schema: &str, data: &[u8]) -> io::Result<()> {
            s.write(name, schema, data)
        }
        pub fn $subdir(s: &$T, dir: &str) -> Rc<ResourceStorage> {
            s.subdir(dir)
        }
        pub fn $stream(s: &$T, name: &str) -> io::Result<()> {
            s.create_output_stream(name).map(|_| ())
        }
        pub fn $streamw(s: &$T, name: &str, data: &[u8]) -> io::Result<()> {
            let stream = s.create_output_stream(name)?;
            let r = stream.borrow_mut().write_all(data);
            r
        }
        pub fn $parts(s: &$T, name: &str, a: &[u8], b: &[u8], head: &[u8]) -> io::Result<()> {
            let stream = s.create_output_stream(name)?;
            stream.borrow_mut().write_all(head)?;
            stream.borrow_mut().write_all(a)?;
            stream.borrow_mut().write_all(b)?;
            stream.borrow_mut().seek(SeekFrom::Start(0))?;
            let r = stream.borrow_mut().write_all(a);
            r
        }
        pub fn $two(s: &$T, n: &str, m: &str, a: &[u8], b: &[u8]) -> io::Result<()> {
            let x = s.create_output_stream(n)?;
            x.borrow_mut().write_all(a)?;
            let y = s.create_output_stream(m)?;
            y.borrow_mut().write_all(b)?;
            x.borrow_mut().write_all(b)?;
            let r = y.borrow_mut().write_all(a);
            r
        }
        /// Read before it is complete; returns what was read then.
        pub fn $peek<'a>(s: &'a $T, name: &str, a: &[u8], b: &[u8]) -> io::Result<&'a [u8]> {
            let stream = s.create_output_stream(name)?;
            stream.borrow_mut().write_all(a)?;
            let r = s.read_resource(name)?;
            stream.borrow_mut().write_all(b)?;
            Ok(r)
        }
        pub fn $over(s: &$T, name: &str, a: &[u8], b: &[u8]) -> io::Result<usize> {
            let stream = s.create_output_stream(name)?;
            stream.borrow_mut().write_all(a)?;
            let n = s.read_resource(name)?.len();
            stream.borrow_mut().seek(io::SeekFrom::Start(0))?;
            stream.borrow_mut().write_all(b)?;
            Ok(n)
        }
    };
}
backend!(MemoryResourceStorage, r_mem_new, r_mem_exists, r_mem_read_resource, r_mem_read, r_mem_rcs, r_mem_write, r_mem_subdir, r_mem_stream, r_mem_streamw, r_mem_parts, r_mem_two, r_mem_peek, r_mem_over);
backend!(FileResourceStorage, r_file_new, r_file_exists, r_file_read_resource, r_file_read, r_file_rcs, r_file_write, r_file_subdir, r_file_stream, r_file_streamw, r_file_parts, r_file_two, r_file_peek, r_file_over);
