pub fn set_handler<F: FnMut() + 'static + Send>(_f: F) -> Result<(), std::io::Error> { Ok(()) }
