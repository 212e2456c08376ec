pub mod v6 {
	pub const MAX_POV_SIZE: u32 = 5 * 1024 * 1024;
}
