//! Stand-in for `reqwest`: there is no network, every call fails.
pub mod blocking {
	#[derive(Debug)]
	pub struct Error;
	pub struct Response;
	impl Response { pub fn text(self) -> Result<String, Error> { Err(Error) } }
	pub fn get<T>(_url: T) -> Result<Response, Error> { Err(Error) }
	pub struct Client;
	pub struct ClientBuilder;
	pub struct RequestBuilder;
	impl Client {
		pub fn builder() -> ClientBuilder { ClientBuilder }
		pub fn get<T>(&self, _url: T) -> RequestBuilder { RequestBuilder }
	}
	impl ClientBuilder {
		pub fn user_agent<T>(self, _: T) -> Self { self }
		pub fn build(self) -> Result<Client, Error> { Ok(Client) }
	}
	impl RequestBuilder { pub fn send(self) -> Result<Response, Error> { Err(Error) } }
}
