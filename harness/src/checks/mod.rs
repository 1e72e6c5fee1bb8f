use crate::engine::Check;

macro_rules! checks {
    ($($m:ident),* $(,)?) => {
        $(pub mod $m;)*
        pub fn all() -> Vec<Check> {
            vec![$($m::CHECK),*]
        }
    };
}

checks!(
    c01, c02, c03, c04, c05, c06, c07, c08, c09, c10, c11, c12, c13, c14, c15, c16, c17, c18, c19, c20, c21, c22, c23, c24, c25, c26,
    c27, c28, c29, c30, c31, c32, c33, c34, c35, c36, c37, c38, c39,
);

pub fn by_id(id: &str) -> Option<Check> {
    all().into_iter().find(|c| c.id == id)
}

pub const TRUSTED: &str = "the reference components in vref (LZW, parser, file model), written from the GIF89a specification";
pub const RELEASE: &str = "weezl and color_quant are used as released, at the versions in harness/Cargo.lock";
