pub struct SqliteConnectionManager;
impl SqliteConnectionManager {
    pub fn memory() -> Self {
        SqliteConnectionManager
    }
}
