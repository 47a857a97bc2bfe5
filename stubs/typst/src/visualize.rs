#[derive(Debug, Copy, Clone, PartialEq)]
pub struct Color(u32);
impl Color {
    pub const BLACK: Self = Self(0);
    pub const WHITE: Self = Self(1);
    pub const RED: Self = Self(2);
    pub const GREEN: Self = Self(3);
    pub const BLUE: Self = Self(4);
    pub fn to_hex(&self) -> ecow::EcoString {
        unimplemented!()
    }
}
impl std::str::FromStr for Color {
    type Err = &'static str;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        unimplemented!()
    }
}
