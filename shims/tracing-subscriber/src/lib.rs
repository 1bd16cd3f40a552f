pub mod fmt {
    pub fn init() {}
    pub fn try_init() -> Result<(), Box<dyn std::error::Error + Send + Sync + 'static>> {
        Ok(())
    }
}
