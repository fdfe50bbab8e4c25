//! Stand-in for tower: what core-api needs of its ServiceBuilder.
#[derive(Default)]
pub struct ServiceBuilder<L = ()>(pub L);

impl ServiceBuilder<()> {
    pub fn new() -> Self {
        ServiceBuilder(())
    }
}

impl<L> ServiceBuilder<L> {
    pub fn layer<T>(self, t: T) -> ServiceBuilder<(T, L)> {
        ServiceBuilder((t, self.0))
    }
}
