//! Stand-in for the `bitfield` crate: single-bit fields of a tuple struct over one integer.
#[macro_export]
macro_rules! bitfield {
    ($(#[$attr:meta])* pub struct $name:ident($t:ty); impl Debug; $(pub $get:ident, $set:ident: $bit:expr;)*) => {
        $(#[$attr])*
        pub struct $name(pub $t);
        impl $name {
            $(
                pub fn $get(&self) -> bool {
                    (self.0 >> $bit) & 1 == 1
                }
                pub fn $set(&mut self, value: bool) {
                    if value {
                        self.0 |= 1 << $bit;
                    } else {
                        self.0 &= !(1 << $bit);
                    }
                }
            )*
        }
        impl std::fmt::Debug for $name {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.debug_struct(stringify!($name)).field(".0", &self.0)$(.field(stringify!($get), &self.$get()))*.finish()
            }
        }
    };
}
