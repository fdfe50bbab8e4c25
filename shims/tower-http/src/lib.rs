//! Stand-in for tower-http: what core-api needs of its CORS layer.
pub mod cors {
    pub struct Any;

    #[derive(Default)]
    pub struct CorsLayer;

    impl CorsLayer {
        pub fn new() -> Self {
            CorsLayer
        }

        pub fn allow_methods<T>(self, _: T) -> Self {
            self
        }

        pub fn allow_origin<T>(self, _: T) -> Self {
            self
        }

        pub fn allow_headers<T>(self, _: T) -> Self {
            self
        }
    }
}
