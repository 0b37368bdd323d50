use std::{fs, io, path::Path};
pub fn copy_dir<Q: AsRef<Path>, P: AsRef<Path>>(s: P, d: Q) -> io::Result<()> {
    fs::create_dir_all(&d)?;
    for e in fs::read_dir(s)? { let e = e?; let t = d.as_ref().join(e.file_name()); if e.file_type()?.is_dir() { copy_dir(e.path(), t)? } else { fs::copy(e.path(), t)?; } }
    Ok(())
}
