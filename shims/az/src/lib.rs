//! The one trait of `az` this repository uses; `rug` (next to this) implements it.
pub trait SaturatingAs {
    fn saturating_as<Dst>(self) -> Dst
    where
        Self: SaturatingCast<Dst> + Sized,
    {
        self.saturating_cast()
    }
}

impl<T> SaturatingAs for T {}

pub trait SaturatingCast<Dst> {
    fn saturating_cast(self) -> Dst;
}
