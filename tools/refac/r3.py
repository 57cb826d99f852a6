# Helper functions and closures for duplicate checks, parameter encoders, shared read helpers; early returns; try_for_each.
B='src/bus/mod.rs'
SR='src/instructions/sync_read.rs'
EDITS=[
('src/instructions/bulk_read.rs','''	for i in 0..reads.len() {
		for j in i + 1..reads.len() {
			if reads[i].motor_id == reads[j].motor_id {
				panic!(
					"bulk_read_cb: motor ID {} used multiple at index {} and {}",
					reads[i].motor_id, i, j
				)
			}
		}
	}
''','''	if let Some((i, j)) = find_duplicate(reads) {
		panic!("bulk_read_cb: motor ID {} used multiple at index {} and {}", reads[i].motor_id, i, j)
	}
'''),
('src/instructions/bulk_read.rs','''fn write_bulk_read_instruction<''','''/// Find two entries with the same motor ID.
fn find_duplicate(reads: &[BulkReadData]) -> Option<(usize, usize)> {
	for (i, a) in reads.iter().enumerate() {
		let rest = &reads[i + 1..];
		if let Some(offset) = rest.iter().position(|b| b.motor_id == a.motor_id) {
			return Some((i, i + 1 + offset));
		}
	}
	None
}

fn write_bulk_read_instruction<'''),
('src/instructions/bulk_write.rs','''			let write = write.borrow();
			for (j, other) in writes.clone().enumerate().skip(i + 1) {
				if other.borrow().motor_id == write.motor_id {
					panic!("bulk_write: motor ID {} used multiple at index {} and {}", write.motor_id, i, j);
				}
			}
			let data = write.data.as_ref();
''','''			let write = write.borrow();
			let mut others = writes.clone().enumerate().skip(i + 1);
			if let Some((j, _)) = others.find(|(_, other)| other.borrow().motor_id == write.motor_id) {
				panic!("bulk_write: motor ID {} used multiple at index {} and {}", write.motor_id, i, j);
			}
			let data = write.data.as_ref();
'''),
('src/instructions/bulk_write.rs','''			let mut offset = 0;
			for write in writes {
				let write = write.borrow();
				let data = write.data.as_ref();
				let buffer = &mut buffer[offset..];
				offset += 5 + data.len();
				write_u8_le(&mut buffer[0..], write.motor_id);
				write_u16_le(&mut buffer[1..], write.address);
				write_u16_le(&mut buffer[3..], data.len() as u16);
				buffer[5..][..data.len()].copy_from_slice(data);
			}
			Ok(())
''','''			let mut rest = buffer;
			for write in writes {
				let write: &BulkWriteData<D> = write.borrow();
				let data = write.data.as_ref();
				let (entry, tail) = rest.split_at_mut(5 + data.len());
				encode_entry(entry, write.motor_id, write.address, data);
				rest = tail;
			}
			Ok(())
''') if 0 else
('src/instructions/bulk_write.rs','''				let buffer = &mut buffer[offset..];
				offset += 5 + data.len();
				write_u8_le(&mut buffer[0..], write.motor_id);
				write_u16_le(&mut buffer[1..], write.address);
				write_u16_le(&mut buffer[3..], data.len() as u16);
				buffer[5..][..data.len()].copy_from_slice(data);
''','''				offset += encode_entry(&mut buffer[offset..], write.motor_id, write.address, data);
'''),
('src/instructions/bulk_write.rs','''#[cfg(test)]
mod tests''','''/// Encode one entry and return its size.
fn encode_entry(buffer: &mut [u8], motor_id: u8, address: u16, data: &[u8]) -> usize {
	write_u8_le(buffer, motor_id);
	write_u16_le(&mut buffer[1..], address);
	write_u16_le(&mut buffer[3..], data.len() as u16);
	let buffer = &mut buffer[5..];
	buffer[..data.len()].copy_from_slice(data);
	5 + data.len()
}

#[cfg(test)]
mod tests'''),
(SR,'''		self.write_instruction(packet_id::BROADCAST, instruction_id::SYNC_READ, 4 + motor_ids.len(), |buffer| {
			write_u16_le(&mut buffer[0..], address);
			write_u16_le(&mut buffer[2..], count);
			buffer[4..].copy_from_slice(motor_ids);
			Ok(())
		})?;
''','''		self.write_sync_read(motor_ids, address, count)?;
''',3),
(SR,'''macro_rules! make_sync_read_bytes_struct''','''impl<SerialPort, Buffer> Client<SerialPort, Buffer>
where
	SerialPort: crate::SerialPort,
	Buffer: AsRef<[u8]> + AsMut<[u8]>,
{
	fn write_sync_read(&mut self, motor_ids: &[u8], address: u16, count: u16) -> Result<(), WriteError<SerialPort::Error>> {
		let parameter_count = motor_ids.len() + 4;
		self.write_instruction(packet_id::BROADCAST, instruction_id::SYNC_READ, parameter_count, |buffer| {
			let (header, ids) = buffer.split_at_mut(4);
			header[..2].copy_from_slice(&address.to_le_bytes());
			header[2..].copy_from_slice(&count.to_le_bytes());
			for (target, &id) in ids.iter_mut().zip(motor_ids) {
				*target = id;
			}
			Ok(())
		})
	}
}

/// Read the response of one motor, and check that it has the right size.
fn read_one<SerialPort, Buffer>(
	client: &mut Client<SerialPort, Buffer>,
	motor_id: u8,
	count: u16,
) -> Result<crate::bus::StatusPacket<'_>, ReadError<SerialPort::Error>>
where
	SerialPort: crate::SerialPort,
	Buffer: AsRef<[u8]> + AsMut<[u8]>,
{
	// TODO: Allow a response from a motor later in the list (meaning we missed an earlier motor response).
	// We need to report a timeout or something for the missed motor though.
	let response = client.read_status_response(count)?;
	crate::InvalidPacketId::check(response.packet_id(), motor_id)?;
	crate::InvalidParameterCount::check(response.parameters().len(), usize::from(count))?;
	Ok(response)
}

macro_rules! make_sync_read_bytes_struct'''),
(SR,'''		let response = self.client.read_status_response(self.count)?;
		// TODO: Allow a response from a motor later in the list (meaning we missed an earlier motor response).
		// We need to report a timeout or something for the missed motor though.
		crate::InvalidPacketId::check(response.packet_id(), motor_id)?;
		crate::InvalidParameterCount::check(response.parameters().len(), self.count.into())?;
''','''		let response = read_one(self.client, motor_id, self.count)?;
''',2),
(SR,'''		let response = self.client.read_status_response(T::ENCODED_SIZE)?;
		// TODO: Allow a response from a motor later in the list (meaning we missed an earlier motor response).
		// We need to report a timeout or something for the missed motor though.
		crate::InvalidPacketId::check(response.packet_id(), motor_id)?;
		crate::InvalidParameterCount::check(response.parameters().len(), T::ENCODED_SIZE.into())?;

		decode_status_packet(response)
''','''		read_one(self.client, motor_id, T::ENCODED_SIZE).and_then(decode_status_packet)
'''),
('src/instructions/sync_write.rs','''			for (i, command) in data.enumerate() {
				let command = command.as_ref();
				assert_eq!(command.data.as_ref().len(), count as usize);
				let buffer = &mut buffer[4 + i * stride..][..stride];
				buffer[0] = command.motor_id;
				buffer[1..].copy_from_slice(command.data.as_ref());
			}
			Ok(())
''','''			let mut position = 4;
			for command in data {
				let command = command.as_ref();
				let bytes = command.data.as_ref();
				assert!(bytes.len() == count as usize, "data length does not match");
				buffer[position] = command.motor_id;
				buffer[position + 1..][..bytes.len()].copy_from_slice(bytes);
				position += stride;
			}
			Ok(())
'''),
('src/instructions/sync_write.rs','''			for (i, command) in data.enumerate() {
				let command = command.as_ref();
				let buffer = &mut buffer[4 + i * stride..][..stride];
				buffer[0] = command.motor_id;
				command.data.encode(&mut buffer[1..])?;
			}
			Ok(())
''','''			data.enumerate().try_for_each(|(i, command)| {
				let command = command.as_ref();
				let buffer = &mut buffer[4 + i * stride..][..stride];
				buffer[0] = command.motor_id;
				command.data.encode(&mut buffer[1..])
			})
'''),
('src/instructions/read.rs','''		let response = self.transfer_single(motor_id, instruction_id::READ, 4, count, |buffer| {
			write_u16_le(&mut buffer[0..], address);
			write_u16_le(&mut buffer[2..], count);
			Ok(())
		})?;
		crate::error::InvalidParameterCount::check(response.parameters().len(), count.into()).map_err(crate::ReadError::from)?;
		Ok(response)
''','''		let encode = |buffer: &mut [u8]| {
			for (i, value) in [address, count].into_iter().enumerate() {
				write_u16_le(&mut buffer[2 * i..], value);
			}
			Ok(())
		};
		let response = self.transfer_single(motor_id, instruction_id::READ, 4, count, encode)?;
		let actual = response.parameters().len();
		if actual != usize::from(count) {
			return Err(crate::InvalidParameterCount {
				actual,
				expected: crate::ExpectedCount::Exact(count.into()),
			}
			.into());
		}
		Ok(response)
'''),
('src/instructions/write.rs','''		self.write_instruction(motor_id, instruction_id::WRITE, 2 + T::ENCODED_SIZE as usize, |buffer| {
			write_u16_le(&mut buffer[0..], address);
			data.encode(&mut buffer[2..])?;
			Ok(())
		})?;
		Ok(read_response_if_not_broadcast(self, motor_id)?)
	}
''','''		let count = usize::from(T::ENCODED_SIZE);
		self.write_and_confirm(motor_id, address, count, |buffer| data.encode(buffer))
	}

	fn write_and_confirm<F>(&mut self, motor_id: u8, address: u16, count: usize, encode: F) -> Result<Response<()>, TransferError<SerialPort::Error>>
	where
		F: FnOnce(&mut [u8]) -> Result<(), crate::error::BufferTooSmallError>,
	{
		self.write_instruction(motor_id, instruction_id::WRITE, count + 2, |buffer| {
			write_u16_le(buffer, address);
			encode(&mut buffer[2..])
		})?;
		let response = read_response_if_not_broadcast(self, motor_id)?;
		Ok(response)
	}
'''),
('src/instructions/write.rs','''		self.write_instruction(motor_id, instruction_id::WRITE, 2 + data.len(), |buffer| {
			write_u16_le(&mut buffer[0..], address);
			buffer[2..].copy_from_slice(data);
			Ok(())
		})?;
		Ok(read_response_if_not_broadcast(self, motor_id)?)
''','''		self.write_and_confirm(motor_id, address, data.len(), |buffer| {
			buffer.copy_from_slice(data);
			Ok(())
		})
'''),
('src/instructions/clear.rs','''		self.write_instruction(motor_id, instruction_id::CLEAR, CLEAR_ERROR.len(), clear_error_parameters)?;
		Ok(super::read_response_if_not_broadcast(self, motor_id)?)
''','''		self.write_clear(motor_id, CLEAR_ERROR)?;
		super::read_response_if_not_broadcast(self, motor_id).map_err(Into::into)
'''),
('src/instructions/clear.rs','''		self.write_instruction(
			packet_id::BROADCAST,
			instruction_id::CLEAR,
			CLEAR_ERROR.len(),
			clear_error_parameters,
		)?;
		Ok(())
	}
''','''		self.write_clear(packet_id::BROADCAST, CLEAR_ERROR)
	}

	fn write_clear(&mut self, packet_id: u8, parameters: [u8; 5]) -> Result<(), WriteError<SerialPort::Error>> {
		self.write_instruction(packet_id, instruction_id::CLEAR, parameters.len(), move |buffer| {
			buffer.copy_from_slice(&parameters);
			Ok(())
		})
	}
'''),
('src/instructions/clear.rs','''fn clear_error_parameters(buffer: &mut [u8]) -> Result<(), crate::error::BufferTooSmallError> {
	buffer.copy_from_slice(&CLEAR_ERROR);
	Ok(())
}
''',''),
('src/instructions/factory_reset.rs','''		self.write_instruction(motor_id, instruction_id::FACTORY_RESET, 1, |buffer| {
			buffer[0] = kind as u8;
			Ok(())
		})?;
''','''		let raw = match kind {
			FactoryResetKind::ResetAll => 0xFF,
			FactoryResetKind::KeepId => 1,
			FactoryResetKind::KeepIdAndBaudRate => 2,
		};
		self.write_instruction(motor_id, instruction_id::FACTORY_RESET, 1, |buffer| {
			buffer.fill(raw);
			Ok(())
		})?;
'''),
('src/instructions/ping.rs','''		while let Some(response) = self.next() {
			// If the read buffer is too small for any message, we would get this error forever.
			if let Err(ReadError::BufferFull(_)) = response {
				break;
			}
		}
''','''		loop {
			match self.scan_next() {
				None => return,
				// If the read buffer is too small for any message, we would get this error forever.
				Some(Err(ReadError::BufferFull(_))) => return,
				Some(_) => (),
			}
		}
'''),
('src/instructions/ping.rs','''		let parameters = status_packet.parameters();
		crate::InvalidParameterCount::check(parameters.len(), 3)?;
		Ok(Self {
			motor_id: status_packet.packet_id(),
			alert: status_packet.alert(),
			data: Ping {
				model: crate::bus::endian::read_u16_le(&parameters[0..]),
				firmware: crate::bus::endian::read_u8_le(&parameters[2..]),
			},
		})
''','''		let &[model_low, model_high, firmware] = status_packet.parameters() else {
			return Err(crate::InvalidParameterCount {
				actual: status_packet.parameters().len(),
				expected: crate::ExpectedCount::Exact(3),
			});
		};
		let model = u16::from_le_bytes([model_low, model_high]);
		Ok(Self {
			motor_id: status_packet.packet_id(),
			alert: status_packet.alert(),
			data: Ping { model, firmware },
		})
'''),
('src/bus/data.rs','''	crate::error::MotorError::check(status_packet.error())?;
	Ok(Response {
		motor_id: status_packet.packet_id(),
		alert: status_packet.alert(),
		data: T::from(status_packet.parameters()),
	})
''','''	crate::error::MotorError::check(status_packet.error())?;
	let Response { motor_id, alert, data } = Response::<&[u8]>::from(status_packet);
	Ok(Response {
		motor_id,
		alert,
		data: data.into(),
	})
'''),
('src/bus/data.rs','''				const N: usize = core::mem::size_of::<$type>();
				crate::error::InvalidParameterCount::check(buffer.len(), N)?;
				let value = Self::from_le_bytes(buffer[0..N].try_into().unwrap());
				Ok(value)
''','''				const N: usize = core::mem::size_of::<$type>();
				match <[u8; N]>::try_from(buffer) {
					Ok(bytes) => Ok(Self::from_le_bytes(bytes)),
					Err(_) => Err(crate::InvalidParameterCount {
						actual: buffer.len(),
						expected: crate::ExpectedCount::Exact(N),
					}
					.into()),
				}
'''),
('src/bus/data.rs','''				crate::error::BufferTooSmallError::check(N, buffer.len())?;
				buffer[..N].copy_from_slice(&self.to_le_bytes());
				Ok(())
''','''				crate::error::BufferTooSmallError::check(N, buffer.len())?;
				for (target, byte) in buffer.iter_mut().zip(self.to_le_bytes()) {
					*target = byte;
				}
				Ok(())
'''),
('src/error.rs','''		if raw & !0x80 == 0 {
			Ok(())
		} else {
			Err(Self { raw })
		}
''','''		match (Self { raw }) {
			e if e.error_number() != 0 => Err(e),
			_ => Ok(()),
		}
'''),
('src/error.rs','''		if required_size <= total_size {
			Ok(())
		} else {
			Err(Self { required_size, total_size })
		}
''','''		if total_size < required_size {
			return Err(Self { required_size, total_size });
		}
		Ok(())
'''),
(B,'''		Ok(Self::with_buffers_and_baud_rate(serial_port, read_buffer, write_buffer, baud_rate))
''','''		let bus = Self::with_buffers_and_baud_rate(serial_port, read_buffer, write_buffer, baud_rate);
		Ok(bus)
'''),
(B,'''		let mut write_buffer = write_buffer;

		// Pre-fill write buffer with the header prefix.
		// TODO: return Err instead of panicking.
		assert!(write_buffer.as_mut().len() >= HEADER_SIZE + 3);
		write_buffer.as_mut()[..4].copy_from_slice(&HEADER_PREFIX);

		Self {
			serial_port,
			baud_rate,
			read_buffer,
			read_len: 0,
			used_bytes: 0,
			write_buffer,
		}
''','''		let mut bus = Self {
			serial_port,
			baud_rate,
			read_buffer,
			read_len: 0,
			used_bytes: 0,
			write_buffer,
		};

		// Pre-fill write buffer with the header prefix.
		// TODO: return Err instead of panicking.
		let buffer = bus.write_buffer.as_mut();
		if buffer.len() < InstructionPacket::message_len(0) {
			panic!("the write buffer is too small");
		}
		buffer[0] = 0xFF;
		buffer[1] = 0xFF;
		buffer[2] = 0xFD;
		buffer[3] = 0x00;
		bus
'''),
('src/device.rs','''		let bus = Bus::with_buffers(serial_port, alloc::vec![0; 128], alloc::vec![0; 128])?;
		Ok(Self { bus })
''','''		Self::with_buffers(serial_port, alloc::vec![0; 128], alloc::vec![0; 128])
'''),
('src/device.rs','''		self.bus.set_baud_rate(baud_rate)?;
		Ok(())
''','''		self.bus.set_baud_rate(baud_rate)
'''),
('src/device.rs','''		let packet = self.read_raw_instruction_timeout(timeout)?;
		let packet = packet.try_into()?;
		Ok(packet)
	}

	#[cfg''','''		let packet = self.read_raw_instruction_timeout(timeout)?;
		match Instruction::try_from(packet) {
			Ok(instruction) => Ok(instruction),
			Err(e) => Err(ReadError::from(e)),
		}
	}

	#[cfg''') if 0 else ('src/device.rs','''			instruction_id::READ => {
				InvalidParameterCount::check(parameters.len(), 4)?;
				Instructions::Read {
					address: read_u16_le(&parameters[..2]),
					length: read_u16_le(&parameters[2..4]),
				}
			},
''','''			instruction_id::READ => match *parameters {
				[a, b, c, d] => Instructions::Read {
					address: u16::from_le_bytes([a, b]),
					length: u16::from_le_bytes([c, d]),
				},
				_ => {
					return Err(InvalidParameterCount {
						actual: parameters.len(),
						expected: crate::ExpectedCount::Exact(4),
					})
				},
			},
'''),
('src/device.rs','''				InvalidParameterCount::check_min(parameters.len(), 4)?;
				Instructions::SyncRead {
					address: read_u16_le(&parameters[..2]),
					length: read_u16_le(&parameters[2..4]),
					ids: &parameters[4..],
				}
''','''				let (address, length, ids) = split_sync(parameters)?;
				Instructions::SyncRead { address, length, ids }
'''),
('src/device.rs','''				InvalidParameterCount::check_min(parameters.len(), 4)?;
				Instructions::SyncWrite {
					address: read_u16_le(&parameters[..2]),
					length: read_u16_le(&parameters[2..4]),
					parameters: &parameters[4..],
				}
''','''				let (address, length, parameters) = split_sync(parameters)?;
				Instructions::SyncWrite {
					address,
					length,
					parameters,
				}
'''),
('src/device.rs','''impl<'a> TryFrom<InstructionPacket<'a>> for Instruction<&'a [u8]> {''','''fn split_sync(parameters: &[u8]) -> Result<(u16, u16, &[u8]), InvalidParameterCount> {
	InvalidParameterCount::check_min(parameters.len(), 4)?;
	let (header, rest) = parameters.split_at(4);
	Ok((read_u16_le(header), read_u16_le(&header[2..]), rest))
}

impl<'a> TryFrom<InstructionPacket<'a>> for Instruction<&'a [u8]> {'''),
]
