use crate::ristretto::{CompressedRistretto, RistrettoBasepointTable, RistrettoPoint};
pub const RISTRETTO_BASEPOINT_POINT: RistrettoPoint = RistrettoPoint::from_id(1);
pub const RISTRETTO_BASEPOINT_TABLE: RistrettoBasepointTable = RistrettoBasepointTable(1);
pub const RISTRETTO_BASEPOINT_COMPRESSED: CompressedRistretto = CompressedRistretto(vpcore::tag32(&vpcore::MAGIC_P, 1));
