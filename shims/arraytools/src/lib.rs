pub trait ArrayTools {
    fn as_slice(&self) -> &[u8];
}
impl<const N: usize> ArrayTools for [u8; N] {
    fn as_slice(&self) -> &[u8] {
        self
    }
}
