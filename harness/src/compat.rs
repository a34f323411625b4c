//! The few places where the harness needs an API detail of rsasl that a repair introduced.
use rsasl::callback::Request;
use rsasl::mechanisms::scram::properties::ScramCachedPassword;
use rsasl::prelude::SessionError;

pub fn satisfy_cached(r: &mut Request, c: &[u8], s: &[u8]) -> Result<(), SessionError> {
    r.satisfy::<ScramCachedPassword<'static>>(&ScramCachedPassword::new(c, s))?;
    Ok(())
}
