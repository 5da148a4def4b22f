pub mod server {
    #[derive(Debug)]
    pub struct Error;
    pub trait ServerReflection: Send + Sync + 'static {}
    pub struct Svc;
    impl ServerReflection for Svc {}
    pub struct ServerReflectionServer<T>(pub T);
    pub struct Builder;
    impl Builder {
        pub fn configure() -> Self {
            Builder
        }
        pub fn register_encoded_file_descriptor_set(self, _: &[u8]) -> Self {
            self
        }
        pub fn build_v1(self) -> Result<ServerReflectionServer<impl ServerReflection>, Error> {
            Ok(ServerReflectionServer(Svc))
        }
    }
}
