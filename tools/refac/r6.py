# The command line tool restructured: helper functions, generic reads, exit codes, other ways to write files; response conversions.
M='dynamixel2-cli/src/bin/dynamixel2/main.rs'
O='dynamixel2-cli/src/bin/dynamixel2/options.rs'
R='src/response.rs'
EDITS=[
(M,'''fn main() {
	if let Err(()) = do_main(clap::Parser::parse()) {
		std::process::exit(1);
	}
}
''','''fn main() -> std::process::ExitCode {
	let options: Options = clap::Parser::parse();
	match do_main(options) {
		Ok(()) => std::process::ExitCode::SUCCESS,
		Err(()) => std::process::ExitCode::FAILURE,
	}
}

/// Log the error of a failed command.
fn report<T, E: std::fmt::Display>(result: Result<T, E>) -> Result<T, ()> {
	match result {
		Ok(x) => Ok(x),
		Err(e) => {
			log::error!("Command failed: {}", e);
			Err(())
		},
	}
}

fn warn_alert(alert: bool) {
	if alert {
		log::warn!("Alert bit set in response from motor!")
	}
}

fn read_register<T>(options: &Options, motor_id: MotorId, address: u16) -> Result<(dynamixel2::Response<T>, Duration), ()>
where
	T: dynamixel2::bus::Data,
{
	let mut client = open_client(options)?;
	log::debug!("Reading a value from motor {} at address {}", motor_id.raw(), address);
	let motor_id = motor_id.assume_unicast()?;
	let start = Instant::now();
	let response = report(client.read::<T>(motor_id, address))?;
	warn_alert(response.alert);
	Ok((response, start.elapsed()))
}
'''),
(M,'''			let mut client = open_client(&options)?;
			log::debug!("Reading an 8-bit value from motor {} at address {}", motor_id.raw(), address);
			let start = Instant::now();
			let response = client
				.read::<u8>(motor_id.assume_unicast()?, *address)
				.map_err(|e| log::error!("Command failed: {}", e))?;
			if response.alert {
				log::warn!("Alert bit set in response from motor!")
			}
			log::info!("{:?}: {:?} (0x{:02X})", start.elapsed(), response.data, response.data);
''','''			let (response, elapsed) = read_register::<u8>(&options, *motor_id, *address)?;
			log::info!("{:?}: {:?} (0x{:02X})", elapsed, response.data, response.data);
'''),
(M,'''			let mut client = open_client(&options)?;
			log::debug!("Reading a 16-bit value from motor {} at address {}", motor_id.raw(), address);
			let start = Instant::now();
			let response = client
				.read::<u16>(motor_id.assume_unicast()?, *address)
				.map_err(|e| log::error!("Command failed: {}", e))?;
			if response.alert {
				log::warn!("Alert bit set in response from motor!")
			}
			log::info!("{:?}: {:?} (0x{:04X})", start.elapsed(), response.data, response.data);
''','''			let (response, elapsed) = read_register::<u16>(&options, *motor_id, *address)?;
			log::info!("{:?}: {:?} (0x{:04X})", elapsed, response.data, response.data);
'''),
(M,'''					for s in scan {
						match s {
							Ok(r) => log_ping_response(&r, start.elapsed()),
							Err(e) => log::error!("Error pinging motor: {}", e),
						}
					}
''','''					scan.for_each(|s| match s {
						Err(e) => log::error!("Error pinging motor: {}", e),
						Ok(r) => log_ping_response(&r, start.elapsed()),
					});
'''),
(M,'''				.write_bytes(motor_id.raw(), *address, data)
''','''				.write_bytes(motor_id.raw(), *address, data.as_slice())
'''),
(M,'''	let path = path.unwrap_or_else(|| Path::new("-"));
	if path == Path::new("-") {
		log::debug!("Writing shell completion for {} to stdout", shell);
		let stdout = std::io::stdout();
		stdout
			.lock()
			.write_all(&buffer)
			.map_err(|e| log::error!("Failed to write to stdout: {}", e))?;
	} else {
		log::debug!("Writing shell completion for {} to {}", shell, path.display());
		let mut output = std::fs::File::create(path).map_err(|e| log::error!("Failed to create {}: {}", path.display(), e))?;
		output
			.write_all(&buffer)
			.map_err(|e| log::error!("Failed to write to {}: {}", path.display(), e))?;
	}

	Ok(())
''','''	match path.filter(|path| *path != Path::new("-")) {
		None => {
			log::debug!("Writing shell completion for {} to stdout", shell);
			std::io::stdout().write_all(&buffer).map_err(|e| log::error!("Failed to write to stdout: {}", e))
		},
		Some(path) => {
			log::debug!("Writing shell completion for {} to {}", shell, path.display());
			let mut output = std::fs::OpenOptions::new()
				.write(true)
				.create(true)
				.truncate(true)
				.open(path)
				.map_err(|e| log::error!("Failed to create {}: {}", path.display(), e))?;
			if let Err(e) = output.write_all(&buffer) {
				log::error!("Failed to write to {}: {}", path.display(), e);
				return Err(());
			}
			Ok(())
		},
	}
'''),
(O,'''		match self {
			Self::Id(raw) => raw,
			Self::Broadcast => dynamixel2::instructions::packet_id::BROADCAST,
		}
''','''		if let Self::Id(raw) = self {
			raw
		} else {
			dynamixel2::instructions::packet_id::BROADCAST
		}
'''),
(R,'''		crate::InvalidParameterCount::check(status_packet.parameters().len(), 0)?;
		Ok(Self {
			motor_id: status_packet.packet_id(),
			alert: status_packet.alert(),
			data: (),
		})
''','''		let Response { motor_id, alert, data } = Response::<&[u8]>::from(status_packet);
		if !data.is_empty() {
			return Err(crate::InvalidParameterCount {
				actual: data.len(),
				expected: crate::ExpectedCount::Exact(0),
			});
		}
		Ok(Self { motor_id, alert, data: () })
'''),
(O,'''		if data.eq_ignore_ascii_case("broadcast") {
			Ok(Self::Broadcast)
		} else if let Ok(id) = data.parse() {
			if id == dynamixel2::instructions::packet_id::BROADCAST {
				Ok(Self::Broadcast)
			} else {
				Ok(Self::Id(id))
			}
		} else {
			Err("invalid motor ID: expected a number in the range 0..255 or the special value \\"broadcast\\"")
		}
''','''		use dynamixel2::instructions::packet_id::BROADCAST;
		match data.to_ascii_lowercase().as_str() {
			"broadcast" => Ok(Self::Broadcast),
			_ => match data.parse::<u8>() {
				Ok(BROADCAST) => Ok(Self::Broadcast),
				Ok(id) => Ok(Self::Id(id)),
				Err(_) => Err("invalid motor ID: expected a number in the range 0..255 or the special value \\"broadcast\\""),
			},
		}
'''),
]
