/// Marker: the hash function under the ideal MAC (see hmac).
#[derive(Clone, Debug, Default)]
pub struct Sha256;
