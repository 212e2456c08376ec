//! Offline stand-in: the trait of fee calculators.
pub trait FeeCalculator {
	fn min_gas_price() -> (sp_core::U256, frame_support::weights::Weight);
}
