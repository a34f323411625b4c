"""Behaviour-preserving edits of rsasl: every check has to stay quiet on each group. R[name] = [(file, old, new)…], every old must match exactly once."""
R={}
S='src/mechanisms/scram/'
R['scram-client']=[
(S+'client.rs','''        let mut gs2_header = Vec::new();
        let mut cbdata: Option<Vec<u8>> = None;

        match self.plus {''','''        let client_nonce: [u8; N] = generate_nonce(rng);
        let username = session.need_with::<AuthId, _, _>(&EmptyProvider, |authid| {
            SaslName::escape(authid)
                .map(|name| name.into_owned())
                .map_err(Into::into)
        })?;

        let mut cbdata: Option<Vec<u8>> = None;
        let mut gs2_header = Vec::with_capacity(64);

        match self.plus {'''),
(S+'client.rs','''        let username = session.need_with::<AuthId, _, _>(&EmptyProvider, |authid| {
            Ok(SaslName::escape(authid)?.to_string())
        })?;

        let client_nonce: [u8; N] = generate_nonce(rng);

        let iovecs = [''','''        let iovecs = ['''),
(S+'client.rs','''        if let Some(cbdata) = cbdata {
            gs2_header.extend_from_slice(&cbdata[..]);
        }
        let channel_bindings = base64::engine::general_purpose::STANDARD.encode(&gs2_header[..]);
''','''        let mut cb_input = gs2_header;
        cb_input.extend(cbdata.into_iter().flatten());
        let channel_bindings = base64::engine::general_purpose::STANDARD.encode(cb_input);
'''),
(S+'client.rs','''        let server_nonce = nonce
            .strip_prefix(&self.client_nonce)
            .ok_or(SCRAMError::Protocol(ProtocolError::InvalidNonce))?;
        if server_nonce.is_empty() {
            return Err(SCRAMError::Protocol(ProtocolError::InvalidNonce).into());
        }
''','''        let salt = base64::engine::general_purpose::STANDARD
            .decode(salt64)
            .map_err(|_| SCRAMError::Protocol(ProtocolError::Base64Decode))?;

        let server_nonce = match nonce.strip_prefix(&self.client_nonce) {
            Some(server_nonce) if !server_nonce.is_empty() => server_nonce,
            _ => return Err(SCRAMError::Protocol(ProtocolError::InvalidNonce).into()),
        };
'''),
(S+'client.rs','''        // `u32::from_str` would accept a leading '+'
        if !iteration_count.iter().all(u8::is_ascii_digit) {
            return Err(SCRAMError::Protocol(ProtocolError::IterationCountFormat).into());
        }
        let iterations: u32 = core::str::from_utf8(iteration_count)
            .map_err(|e| SCRAMError::ParseError(super::parser::ParseError::BadUtf8(e)))?
            .parse()
            .map_err(|_| SCRAMError::Protocol(ProtocolError::IterationCountFormat))?;

        if iterations == 0 {
            return Err(SCRAMError::Protocol(ProtocolError::IterationCountZero).into());
        }

        let salt = base64::engine::general_purpose::STANDARD
            .decode(salt64)
            .map_err(|_| SCRAMError::Protocol(ProtocolError::Base64Decode))?;
''','''        let iterations = parse_iterations(iteration_count)?;
'''),
(S+'client.rs','''// Waiting for final server msg
struct WaitingServerFinal''','''fn parse_iterations(text: &[u8]) -> Result<u32, SCRAMError> {
    let format = SCRAMError::Protocol(ProtocolError::IterationCountFormat);
    if text.is_empty() {
        return Err(format);
    }
    let mut count = 0u32;
    for byte in text {
        let digit = match byte {
            b'0'..=b'9' => u32::from(byte - b'0'),
            _ => return Err(format),
        };
        count = count
            .checked_mul(10)
            .and_then(|count| count.checked_add(digit))
            .ok_or(format)?;
    }
    if count == 0 {
        return Err(SCRAMError::Protocol(ProtocolError::IterationCountZero));
    }
    Ok(count)
}

// Waiting for final server msg
struct WaitingServerFinal'''),
(S+'client.rs','''        let mut keys: Option<(DOutput<D>, DOutput<D>)>;
        keys = session_data''','''        let cached = session_data'''),
(S+'client.rs','''        if keys.is_none() {
            keys = session_data.maybe_need_with::<SaltedPassword, _, _>(&prov, |password| {
                if password.is_empty() {
                    return Err(SessionError::CallbackError(CallbackError::NoValue));
                }

                Ok(derive_keys::<D>(password))
            })?;
        }
''','''        let keys = match cached {
            Some(keys) => Some(keys),
            None => session_data.maybe_need_with::<SaltedPassword, _, _>(&prov, |password| {
                if password.is_empty() {
                    Err(SessionError::CallbackError(CallbackError::NoValue))
                } else {
                    Ok(derive_keys::<D>(password))
                }
            })?,
        };
'''),
(S+'client.rs','''        if keys.is_none() {
            keys = Some(
                session_data.need_with::<Password, _, _>(&prov, |plain_password| {
                    let mut salted_password = DOutput::<D>::default();

                    // Derive the PBKDF2 key from the password and salt. This is the expensive part
                    hash_password::<D>(plain_password, iterations, &salt[..], &mut salted_password);

                    Ok(derive_keys::<D>(salted_password.as_slice()))
                })?,
            );
        }

        // We now have gotten ourself the keys as efficiently as we could.
        let (client_key, server_key) = keys.unwrap();
''','''        let (client_key, server_key) = if let Some(keys) = keys {
            keys
        } else {
            let mut salted_password = DOutput::<D>::default();
            session_data.need_with::<Password, _, _>(&prov, |plain_password| {
                hash_password::<D>(plain_password, iterations, &salt, &mut salted_password);
                Ok(())
            })?;
            derive_keys::<D>(&salted_password)
        };
'''),
(S+'client.rs','''        let proof = DOutput::<D>::from_exact_iter(
            client_key.iter().zip(client_signature).map(|(x, y)| x ^ y),
        )
        .expect("XOR of two same-sized arrays was not of that size?");
        let proof64''','''        let mut proof = client_key.clone();
        for (byte, mask) in proof.iter_mut().zip(client_signature) {
            *byte ^= mask;
        }
        let proof64'''),
(S+'client.rs','''                if self.verifier.as_slice() == &v[..] {
                    let prov''','''                if v != self.verifier.to_vec() {
                    Err(SessionError::MutualAuthenticationFailed)
                } else {
                    let prov'''),
(S+'client.rs','''                    Ok(StateServerFinal {})
                } else {
                    Err(SessionError::MutualAuthenticationFailed)
                }''','''                    Ok(StateServerFinal {})
                }'''),
(S+'tools.rs','''    let distribution = Slice::new(PRINTABLE).unwrap();
    [0u8; N].map(|_| *distribution.sample(rng))''','''    let distribution = Slice::new(PRINTABLE).unwrap();
    let mut nonce = [0u8; N];
    for (slot, byte) in nonce.iter_mut().zip(distribution.sample_iter(rng)) {
        *slot = *byte;
    }
    nonce'''),
(S+'tools.rs','''    let mut key_hmac =
        <SimpleHmac<D>>::new_from_slice(password).expect("HMAC should work with every key length");

    Mac::update(&mut key_hmac, b"Client Key");
    let client_key = key_hmac.finalize_reset().into_bytes();

    Mac::update(&mut key_hmac, b"Server Key");
    let server_key = key_hmac.finalize().into_bytes();

    (client_key, server_key)''','''    let derive = |label: &[u8]| {
        let mut hmac = <SimpleHmac<D>>::new_from_slice(password)
            .expect("HMAC should work with every key length");
        Mac::update(&mut hmac, label);
        hmac.finalize().into_bytes()
    };
    let server_key = derive(b"Server Key");
    (derive(b"Client Key"), server_key)'''),
(S+'tools.rs','''    let _ = pbkdf2::pbkdf2::<SimpleHmac<D>>(password, salt, iterations, out.as_mut_slice());''','''    // a single block, as the output is as long as that of the digest
    let key = <SimpleHmac<D>>::new_from_slice(password).expect("HMAC can work with any key size");
    let mut block = key
        .clone()
        .chain(salt)
        .chain(1u32.to_be_bytes())
        .finalize_fixed();
    *out = block.clone();
    for _ in 1..iterations {
        block = key.clone().chain(&block).finalize_fixed();
        out.iter_mut().zip(&block).for_each(|(a, b)| *a ^= b);
    }'''),
]
R['scram-server']=[
(S+'server.rs','''        // Step 1: (try to) parse the client message received.
        let parsed''','''        let server_nonce: [u8; N] = generate_nonce(rng);
        let mut decoy_salt = [0u8; DEFAULT_SALT_LEN];
        rng.fill_bytes(&mut decoy_salt);

        // Step 1: (try to) parse the client message received.
        let parsed'''),
(S+'server.rs','''        let server_nonce: [u8; N] = generate_nonce(rng);

        if let Some((iterations, salt, stored_key, server_key)) = params {
            let msg = ServerFirst::new(
                client_nonce,
                &server_nonce,
                salt.as_bytes(),
                iterations.as_bytes(),
            );
            let mut vecw = VectoredWriter::new(msg.as_ioslices());
            *written = vecw.write_all_vectored(writer)?;

            Ok(''','''        let known = params.is_some();
        let (salt_text, iteration_text) = params.as_ref().map_or_else(
            || {
                (
                    base64::engine::general_purpose::STANDARD.encode(decoy_salt),
                    String::from_utf8_lossy(DEFAULT_ITERATIONS).into_owned(),
                )
            },
            |(iterations, salt, _, _)| (salt.clone(), iterations.clone()),
        );
        let msg = ServerFirst::new(
            client_nonce,
            &server_nonce,
            salt_text.as_bytes(),
            iteration_text.as_bytes(),
        );
        *written = VectoredWriter::new(msg.as_ioslices()).write_all_vectored(writer)?;

        if let (true, Some((iterations, salt, stored_key, server_key))) = (known, params) {
            Ok('''),
(S+'server.rs','''            let mut salt = [0u8; DEFAULT_SALT_LEN];
            rng.fill_bytes(&mut salt);
            let salt = base64::engine::general_purpose::STANDARD.encode(salt);

            let msg = ServerFirst::new(
                client_nonce,
                &server_nonce,
                salt.as_bytes(),
                DEFAULT_ITERATIONS,
            );
            let mut vecw = VectoredWriter::new(msg.as_ioslices());
            *written = vecw.write_all_vectored(writer)?;

            Ok(WaitingClientFinal::bad_user())''','''            Ok(WaitingClientFinal::bad_user())'''),
(S+'server.rs','''        match cbflag {
            // TODO: check if this is a protocol downgrade
            GS2CBindFlag::SupportedNotUsed => {
                if self.plus != CBSupport::No {
                    return Err(SessionError::MechanismError(Box::new(
                        ScramServerError::ChannelBindingsNotUsed,
                    )));
                }
            }
            GS2CBindFlag::NotSupported => {
                if self.plus == CBSupport::Required {
                    return Err(SessionError::MechanismError(Box::new(
                        ScramServerError::ChannelBindingsNotUsed,
                    )));
                }
            }
            GS2CBindFlag::Used(name) => session_data.need_cb_data(name, provider, |cbdata| {
                gs2_header.extend_from_slice(cbdata);
                Ok(())
            })?,
        };''','''        if let GS2CBindFlag::Used(name) = cbflag {
            let data = session_data.need_cb_data(name, provider, |data| Ok(data.to_vec()))?;
            gs2_header.extend(data);
        } else {
            let downgraded = match self.plus {
                CBSupport::Required => true,
                CBSupport::Yes => cbflag == GS2CBindFlag::SupportedNotUsed,
                CBSupport::No => false,
            };
            if downgraded {
                return Err(SessionError::MechanismError(Box::new(
                    ScramServerError::ChannelBindingsNotUsed,
                )));
            }
        }'''),
(S+'server.rs','''                if stored_key.len() != hash_len || server_key.len() != hmac_len {
                    return''','''                let usable = [(stored_key.len(), hash_len), (server_key.len(), hmac_len)]
                    .iter()
                    .all(|(is, needed)| is == needed);
                if !usable {
                    return'''),
(S+'server.rs','''                    let mut client_signature = DOutput::<D>::default();
                    let mut server_signature = DOutput::<D>::default();
''','''                    let mut client_signature = DOutput::<D>::default();
'''),
(S+'server.rs','''                    sign_auth_message::<D>(&server_key, &auth_message, &mut server_signature);
''',''''''),
(S+'server.rs','''                    let client_key = DOutput::<D>::from_exact_iter(
                        proof_decoded
                            .into_iter()
                            .zip(client_signature)
                            .map(|(x, y)| x ^ y),
                    )
                    .expect("XOR of two same-sized arrays was not of that size?");

                    let calculated_stored_key = D::digest(client_key);

                    if stored_key == calculated_stored_key {
                        let encoded''','''                    let client_key: Vec<u8> = proof_decoded
                        .iter()
                        .zip(&client_signature)
                        .map(|(x, y)| x ^ y)
                        .collect();

                    if D::digest(client_key)[..] == stored_key[..] {
                        let mut server_signature = DOutput::<D>::default();
                        sign_auth_message::<D>(&server_key, &auth_message, &mut server_signature);
                        let encoded'''),
(S+'tools.rs','''    let mut hmac = <SimpleHmac<D>>::new_from_slice(key).expect("HMAC can work with any key size");
    for part in auth_message {
        Mac::update(&mut hmac, part);
    }
    hmac.finalize_into(signature);''','''    *signature = <SimpleHmac<D>>::new_from_slice(key)
        .expect("HMAC can work with any key size")
        .chain(auth_message.concat())
        .finalize_fixed();'''),
(S+'server.rs','''            Some(WaitingClientFinal(state)) => {
                let client_final = input.ok_or(SessionError::InputDataRequired)?;
                let mut written = 0;
                let new_state = state.step(client_final, session, writer, &mut written)?;
                self.state = Some(Finished(new_state));
                Ok(State::Finished(MessageSent::Yes))
            }''','''            Some(WaitingClientFinal(state)) => {
                let client_final = input.ok_or(SessionError::InputDataRequired)?;
                let mut message = Vec::new();
                let mut written = 0;
                let new_state = state.step(client_final, session, &mut message, &mut written);
                writer.write_all(&message)?;
                self.state = Some(Finished(new_state?));
                Ok(State::Finished(MessageSent::Yes))
            }'''),
]
R['parser']=[
(S+'parser.rs','''        if input.contains([',', '=']) {
            let escaped: String = input.chars().flat_map(SaslEscapeState::escape).collect();
            Ok(Cow::Owned(escaped))
        } else {
            Ok(Cow::Borrowed(input))
        }''','''        if !input.contains([',', '=']) {
            return Ok(Cow::Borrowed(input));
        }
        Ok(Cow::Owned(input.replace('=', "=3D").replace(',', "=2C")))'''),
(S+'parser.rs','''        let mut parts = input.split('=');
        // `split` always returns at least one part
        let good = parts.next().unwrap_or_default();
        if good.len() == input.len() {
            return Ok(Cow::Borrowed(input));
        }

        let mut out = String::with_capacity(input.len());
        out.push_str(good);
        for part in parts {
            let (c, good) = if let Some(good) = part.strip_prefix("2C") {
                (',', good)
            } else if let Some(good) = part.strip_prefix("3D") {
                ('=', good)
            } else {
                return Err(SaslNameError::InvalidEscape);
            };
            out.push(c);
            out.push_str(good);
        }

        Ok(out.into())''','''        let mut out = String::new();
        let mut rest = input;
        while let Some(at) = rest.find('=') {
            let (good, escape) = rest.split_at(at);
            out.push_str(good);
            out.push(match escape.get(..3) {
                Some("=2C") => ',',
                Some("=3D") => '=',
                _ => return Err(SaslNameError::InvalidEscape),
            });
            rest = &escape[3..];
        }
        out.push_str(rest);

        Ok(out.into())'''),
(S+'parser.rs','''                cbname
                    .iter()
                    // According to [RFC5056 Section 7](https://www.rfc-editor.org/rfc/rfc5056#section-7)
                    // valid cb names are only composed of ASCII alphanumeric, '.' and '-'
                    .find(|b| !(matches!(b, b'.' | b'-' | b'0'..=b'9' | b'A'..=b'Z' | b'a'..=b'z')))
                    .map_or_else(
                        || {
                            // SAFE because we just checked for a subset of ASCII which is always UTF-8
                            let name = unsafe { core::str::from_utf8_unchecked(cbname) };
                            Ok(Self::Used(name))
                        },
                        |bad| Err(ParseError::BadCBName(*bad)),
                    )''','''                for byte in cbname {
                    if !byte.is_ascii_alphanumeric() && *byte != b'.' && *byte != b'-' {
                        return Err(ParseError::BadCBName(*byte));
                    }
                }
                Ok(Self::Used(core::str::from_utf8(cbname)?))'''),
(S+'parser.rs','''        if let Some(next) = partiter.next() {
            return Err(unexpected(next));
        }

        Ok(Self {
            nonce,
            server_nonce: None,''','''        match partiter.next() {
            Some(extension) => return Err(unexpected(extension)),
            None => {}
        }

        Ok(Self {
            nonce,
            server_nonce: None,'''),
('src/mechanisms/oauthbearer/parser.rs','''    let mut parts = input.split('=');
    // `split` always returns at least one part
    let first = parts.next().unwrap_or_default();
    if first.len() == input.len() {
        return Ok(Cow::Borrowed(input));
    }

    let mut out = String::with_capacity(input.len());
    out.push_str(first);
    for part in parts {
        let (c, rest) = if let Some(rest) = part.strip_prefix("2C") {
            (',', rest)
        } else if let Some(rest) = part.strip_prefix("3D") {
            ('=', rest)
        } else {
            return Err(ParseError::InvalidGs2);
        };
        out.push(c);
        out.push_str(rest);
    }
    Ok(Cow::Owned(out))''','''    let mut out = String::with_capacity(input.len());
    for (i, part) in input.split('=').enumerate() {
        if i == 0 {
            out.push_str(part);
            continue;
        }
        match part.get(..2) {
            Some("2C") => out.push(','),
            Some("3D") => out.push('='),
            _ => return Err(ParseError::InvalidGs2),
        }
        out.push_str(&part[2..]);
    }
    Ok(Cow::Owned(out))'''),
('src/mechanisms/oauthbearer/parser.rs','''                    let t = match t.get(..7) {
                        Some(scheme) if scheme.eq_ignore_ascii_case(b"Bearer ") => &t[7..],
                        _ => t,
                    };''','''                    let has_scheme = t.len() >= 7 && t[..7].to_ascii_lowercase() == b"bearer ";
                    let t = if has_scheme { &t[7..] } else { t };'''),
('src/mechname.rs','''            input.iter().enumerate().try_for_each(|(index, value)| {
                if is_invalid(*value) {
                    Err(InvalidChar {
                        index,
                        value: *value,
                    })
                } else {
                    Ok(())
                }
            })?;
            Ok(Self::const_new(input))''','''            match input.iter().position(|value| is_invalid(*value)) {
                Some(index) => Err(InvalidChar {
                    index,
                    value: input[index],
                }),
                None => Ok(Self::const_new(input)),
            }'''),
]
R['simple-mechs']=[
('src/mechanisms/plain/client.rs','''        session.maybe_need_with::<AuthzId, _, _>(&EmptyProvider, |authzid| {
            if authzid.contains('\\0') {
                return Err(SessionError::MechanismError(Box::new(
                    PlainError::ContainsNull,
                )));
            }
            writer.write_all(authzid.as_bytes())?;
            Ok(())
        })?;

        writer.write_all(&[0])?;
''','''        let mut message = Vec::new();
        session.maybe_need_with::<AuthzId, _, _>(&EmptyProvider, |authzid| {
            if authzid.contains('\\0') {
                return Err(SessionError::MechanismError(Box::new(
                    PlainError::ContainsNull,
                )));
            }
            message.extend_from_slice(authzid.as_bytes());
            Ok(())
        })?;

        message.push(0);
'''),
('src/mechanisms/plain/client.rs','''            writer.write_all(authid.as_bytes())?;
            Ok(())
        })?;

        writer.write_all(&[0])?;
''','''            message.extend_from_slice(authid.as_bytes());
            Ok(())
        })?;

        message.push(0);
'''),
('src/mechanisms/plain/client.rs','''            writer.write_all(password)?;
            Ok(())
        })?;

        Ok(''','''            message.extend_from_slice(password);
            Ok(())
        })?;

        writer.write_all(&message)?;
        Ok('''),
('src/mechanisms/plain/server.rs','''        let mut split = input.split(|byte| *byte == 0);

        let authzid: &[u8] = split.next().ok_or(PlainError::BadFormat)?;
        let authcid: &[u8] = split.next().ok_or(PlainError::BadFormat)?;
        let password: &[u8] = split.next().ok_or(PlainError::BadFormat)?;

        // If we have three or more null bytes this will be Some and return an error
        if split.next().is_some() {
            return Err(PlainError::BadFormat.into());
        }
''','''        let parts: Vec<&[u8]> = input.split(|byte| *byte == 0).collect();
        let [authzid, authcid, password] = parts[..] else {
            return Err(PlainError::BadFormat.into());
        };
'''),
('src/mechanisms/login/client.rs','''            LoginState::Authid => {
                session.need_with::<AuthId, _, _>(&EmptyProvider, |authid| {
                    writer.write_all(authid.as_bytes())?;
                    Ok(())
                })?;
                self.state = LoginState::Password;
                Ok(State::Running)
            }''','''            LoginState::Authid => {
                let authid = session
                    .need_with::<AuthId, _, _>(&EmptyProvider, |authid| Ok(authid.to_owned()))?;
                writer.write_all(authid.as_bytes())?;
                self.state = LoginState::Password;
                Ok(State::Running)
            }'''),
('src/mechanisms/login/server.rs','''                if let Some(input) = input {
                    let username = core::str::from_utf8(input)
                        .map_err(LoginError::Utf8)?
                        .to_string();

                    let out = b"Password\\0";
                    writer.write_all(out)?;
                    self.state = LoginState::WaitingForPassword(username);
                    Ok(State::Running)
                } else {
                    Err(SessionError::InputDataRequired)
                }''','''                let input = input.ok_or(SessionError::InputDataRequired)?;
                let username = core::str::from_utf8(input).map_err(LoginError::Utf8)?;
                writer.write_all(b"Password\\0")?;
                self.state = LoginState::WaitingForPassword(String::from(username));
                Ok(State::Running)'''),
('src/mechanisms/oauthbearer/client.rs','''                writer.write_all(b"n,")?;
                session.maybe''','''                let mut message = b"n,".to_vec();
                session.maybe'''),
('src/mechanisms/oauthbearer/client.rs','''                    writer.write_all(b"a=")?;
                    writer.write_all(escape_authzid(authzid).as_bytes())?;
                    Ok(())
                })?;
                writer.write_all(b",")?;''','''                    message.extend_from_slice(b"a=");
                    message.extend_from_slice(escape_authzid(authzid).as_bytes());
                    Ok(())
                })?;
                message.push(b',');'''),
('src/mechanisms/oauthbearer/client.rs','''                        let data = [b"\\x01", k.as_bytes(), b"=", v.as_bytes()];
                        let mut vecw = VectoredWriter::new(data);
                        vecw.write_all_vectored(&mut *writer)?;''','''                        message.extend_from_slice(format!("\\x01{k}={v}").as_bytes());'''),
('src/mechanisms/oauthbearer/client.rs','''                    vecw.write_all_vectored(writer)?;
                    Ok(())
                })?;
''','''                    vecw.write_all_vectored(&mut message)?;
                    Ok(())
                })?;
                writer.write_all(&message)?;
'''),
('src/mechanisms/xoauth2/client.rs','''                session.need_with::<AuthId, _, _>(&EmptyProvider, |authid| {
                    if authid.contains('\\x01') {
                        return Err(SessionError::MechanismError(Box::new(
                            Error::ContainsSeparator("username"),
                        )));
                    }
                    let data = [b"user=", authid.as_bytes(), b"\\x01auth=Bearer "];
                    let mut vecw = VectoredWriter::new(data);
                    vecw.write_all_vectored(&mut *writer)?;
                    Ok(())
                })?;
''','''                let authid = session.need_with::<AuthId, _, _>(&EmptyProvider, |authid| {
                    if authid.contains('\\x01') {
                        return Err(SessionError::MechanismError(Box::new(
                            Error::ContainsSeparator("username"),
                        )));
                    }
                    Ok(authid.to_string())
                })?;
'''),
('src/mechanisms/xoauth2/client.rs','''                    let data = [token.as_bytes(), b"\\x01\\x01"];''','''                    let data: [&[u8]; 5] = [
                        b"user=",
                        authid.as_bytes(),
                        b"\\x01auth=Bearer ",
                        token.as_bytes(),
                        b"\\x01\\x01",
                    ];'''),
('src/mechanisms/oauthbearer/server.rs','''                    if let Err(error) = result {
                        let message = serde_json::to_vec(error).map_err(Error::Serde)?;
                        writer.write_all(&message)?;
                        self.state = OAuthBearerState::Errored;
                        Ok(State::Running)
                    } else {
                        Ok(State::Finished(MessageSent::No))
                    }''','''                    match result {
                        Ok(()) => Ok(State::Finished(MessageSent::No)),
                        Err(error) => {
                            let mut message = Vec::with_capacity(64);
                            serde_json::to_writer(&mut message, error).map_err(Error::Serde)?;
                            writer.write_all(message.as_slice())?;
                            self.state = OAuthBearerState::Errored;
                            Ok(State::Running)
                        }
                    }'''),
]
R['core']=[
('src/session.rs','''                if let Some(input) = input {
                    self.mechanism
                        .step(&mut mechanism_data, Some(input), writer)
                } else {
                    self.mechanism.step(&mut mechanism_data, None, writer)
                }?
            };''','''                self.mechanism.step(&mut mechanism_data, input, writer)?
            };'''),
('src/session.rs','''            let mut output = Vec::new();

            let state = if let Some(input) = input {
                let input =
                    base64::Engine::decode(&base64::engine::general_purpose::STANDARD, input)?;
                self.step(Some(&input[..]), &mut output)
            } else {
                self.step(None, &mut output)
            }?;

            let encoded =
                base64::Engine::encode(&base64::engine::general_purpose::STANDARD, output);
            writer.write_all(encoded.as_bytes())?;
            Ok(state)''','''            let engine = &base64::engine::general_purpose::STANDARD;
            let input = input
                .map(|input| base64::Engine::decode(engine, input))
                .transpose()?;

            let mut output = Vec::new();
            let state = self.step(input.as_deref(), &mut output)?;

            let mut encoded = String::with_capacity(output.len() * 4 / 3 + 4);
            base64::Engine::encode_string(engine, &output, &mut encoded);
            writer.write_all(encoded.as_bytes()).map(|()| state).map_err(Into::into)'''),
('src/session.rs','''        match self.callback.callback(&self.session_data, context, request) {
            Ok(()) | Err(SessionError::CallbackError(CallbackError::EarlyReturn(_))) => Ok(()),
            Err(e) => Err(e),
        }''','''        let result = self.callback.callback(&self.session_data, context, request);
        if let Err(SessionError::CallbackError(CallbackError::EarlyReturn(_))) = result {
            return Ok(());
        }
        result'''),
('src/session.rs','''        if let Some(cbdata) = self.chanbind_cb.get_cb_data(cbname) {
            f(cbdata).map(Some)
        } else {
            self.maybe_need_with::<ChannelBindings, F, G>(&prov, f)
        }''','''        match self.chanbind_cb.get_cb_data(cbname) {
            None => self.maybe_need_with::<ChannelBindings, F, G>(&prov, f),
            Some(data) => Ok(Some(f(data)?)),
        }'''),
('src/vectored_io.rs','''        if self.skip >= N {
            return Ok(0);
        }

        let mut bufs: [IoSlice; N] = self.data.map(IoSlice::new);

        let mut written = 0;
        while self.skip < N {
            // There is nothing left to write if all remaining buffers are empty.
            if self.data[self.skip..].iter().all(|buf| buf.is_empty()) {
                return Ok(written);
            }

            let len = match self.write_vectored_inner(&mut bufs, &mut writer) {
                Err(error) if error.kind() == io::ErrorKind::Interrupted => continue,
                result => result?,
            };
            // The underlying writer is exhausted but there is still data left.
            if len == 0 {
                return Err(io::Error::from(io::ErrorKind::WriteZero));
            }

            written += len;
        }

        Ok(written)''','''        let mut written = 0;
        for buf in &self.data[self.skip.min(N)..] {
            writer.write_all(buf)?;
            written += buf.len();
        }
        self.skip = N;
        Ok(written)'''),
('src/registry.rs','''        for o in offered {
            for s in &mut selectors {
                s.select(o);
            }
        }

        let (mut s, m) = selectors
            .into_iter()
            .filter_map(|mut s| s.done().map(|m| (s, m)))
            .fold(None, |acc, (s, m)| {
                let accmech = acc.as_ref().map(|(_, m)| *m);
                match fold(accmech, m) {
                    // `Greater` means the first parameter (accmech) was preferable — even if None.
                    Ordering::Greater => acc,
                    // `Equal` is undefined behaviour, but we're just going for `Less` because
                    // we don't have to check for `accmech` being `None` then.
                    Ordering::Equal |
                    // `Less` means the second parameter (m) was preferable
                    Ordering::Less => Some((s,m))
                }
            })
            .ok_or(SASLError::NoSharedMechanism)?;
        s.finalize().map(|a| (a, m))''','''        let offered: Vec<&Mechname> = offered.collect();
        let mut best: Option<(Selection, &'static Mechanism)> = None;
        for mut selector in selectors.drain(..) {
            for name in &offered {
                selector.select(name);
            }
            let Some(mechanism) = selector.done() else {
                continue;
            };
            if fold(best.as_ref().map(|(_, m)| *m), mechanism) != Ordering::Greater {
                best = Some((selector, mechanism));
            }
        }
        let (mut selector, mechanism) = best.ok_or(SASLError::NoSharedMechanism)?;
        Ok((selector.finalize()?, mechanism))'''),
('src/sasl.rs','''            let mech = self
                .get_available()
                .find(|mech| mech.mechanism == selected)
                .ok_or(SASLError::NoSharedMechanism)?;
            let auth = mech
                .server(config.as_ref())
                .ok_or(SASLError::NoSharedMechanism)??;
            Ok(Session::new(self, Side::Server, auth, *mech))''','''            for mech in config.mech_list() {
                if mech.mechanism.as_bytes() != selected.as_bytes() {
                    continue;
                }
                if let Some(auth) = mech.server(&config) {
                    return Ok(Session::new(self, Side::Server, auth?, *mech));
                }
            }
            Err(SASLError::NoSharedMechanism)'''),
('src/callback.rs','''        match self.closure.take() {
            Some(ClosureCRState::Open(closure)) => {
                let reply = closure(answer)?;
                self.closure = Some(ClosureCRState::Satisfied(reply));
            }
            // Only the first value is ever used
            satisfied => self.closure = satisfied,
        }
        Ok(())''','''        if self.is_satisfied() {
            return Ok(());
        }
        if let Some(ClosureCRState::Open(closure)) = self.closure.take() {
            self.closure = Some(ClosureCRState::Satisfied(closure(answer)?));
        }
        Ok(())'''),
('src/config.rs','''                    request
                        .satisfy::<AuthId>(self.authid.as_str())?
                        .satisfy::<Password>(self.password.as_bytes())?;
                    if let Some(authzid) = self.authzid.as_deref() {
                        request.satisfy::<AuthzId>(authzid)?;
                    }
                    Ok(())''','''                    match &self.authzid {
                        Some(authzid) if request.is::<AuthzId>() => {
                            request.satisfy::<AuthzId>(authzid)?;
                        }
                        _ => {}
                    }
                    if request.is::<Password>() {
                        request.satisfy::<Password>(self.password.as_bytes())?;
                    }
                    request.satisfy::<AuthId>(&self.authid).map(drop)'''),
]
R['gssapi']=[
('src/mechanisms/gssapi/server.rs','''                let out_bytes = if supported
                    .intersects(SecurityLayer::CONFIDENTIALITY | SecurityLayer::INTEGRITY)
                {
                    // TODO: This should come from a call to `GSS_Wrap_size_limit` instead of
                    //       being a static 2^25 - 1
                    [supported.bits(), 0xFF, 0xFF, 0xFF]
                } else {
                    [supported.bits(), 0x00, 0x00, 0x00]
                };
                let wrapped = ctx.wrap(false, &out_bytes).map_err(Error::Gss)?;''','''                let size = if supported.bits() == SecurityLayer::NO_SECURITY_LAYER.bits() {
                    0u32
                } else {
                    0x00FF_FFFF
                };
                let mut offer = size.to_be_bytes();
                offer[0] = supported.bits();
                let wrapped = ctx.wrap(false, &offer).map_err(Error::Gss)?;'''),
('src/mechanisms/gssapi/server.rs','''                let wrap_state = if selected.contains(SecurityLayer::CONFIDENTIALITY) {
                    Some((ctx, true))
                } else if selected.contains(SecurityLayer::INTEGRITY) {
                    Some((ctx, false))
                } else {
                    None
                };

                self.state = GssapiState::Done(wrap_state);
''','''                let encrypt = selected.bits() == SecurityLayer::CONFIDENTIALITY.bits();
                let layered = encrypt || selected.bits() == SecurityLayer::INTEGRITY.bits();
                self.state = GssapiState::Done(layered.then_some((ctx, encrypt)));
'''),
('src/mechanisms/gssapi/client.rs','''                let mut targ_name = session
                    .need_with::<GssService, _, _>(&EmptyProvider, |service| {
                        Ok(String::from(service))
                    })?;
                targ_name.push('@');
                session.need_with::<Hostname, _, _>(&EmptyProvider, |hostname| {
                    targ_name.push_str(hostname);
                    Ok(())
                })?;''','''                let hostname = session
                    .need_with::<Hostname, _, _>(&EmptyProvider, |name| Ok(name.to_string()))?;
                let targ_name = session
                    .need_with::<GssService, _, _>(&EmptyProvider, |service| {
                        Ok(format!("{service}@{hostname}"))
                    })?;'''),
]
