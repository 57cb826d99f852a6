# Helpers extracted, statements reordered, early returns.
B='src/bus/mod.rs'
EDITS=[
(B,'''		let buffer = self.write_buffer.as_mut();

		// Check if the buffer can hold the unstuffed message.
		crate::error::BufferTooSmallError::check(InstructionPacket::message_len(parameter_count), buffer.len())?;

		// Add the header, with a placeholder for the length field.
		buffer[4] = packet_id;
		buffer[5] = 0;
		buffer[6] = 0;
		buffer[7] = instruction_id;
		encode_parameters(&mut buffer[8..][..parameter_count])?;

		// Perform bitstuffing on the body.
		// The header never needs stuffing.
		// However, strictly following the spec, the instruction ID might need stuffing.
		// Leave room in the buffer for the checksum.
		let body_end = buffer.len() - 2;
		let stuffed_body_len = bytestuff::stuff_inplace(&mut buffer[HEADER_SIZE..body_end], 1 + parameter_count)?;

		// Check that the length of the stuffed message can be represented in the length field.
		crate::error::BufferTooSmallError::check(stuffed_body_len + 2, u16::MAX.into())?;
		endian::write_u16_le(&mut buffer[5..], stuffed_body_len as u16 + 2);

		// Add checksum.
		let checksum_index = HEADER_SIZE + stuffed_body_len;
		let checksum = checksum::calculate_checksum(0, &buffer[..checksum_index]);
		endian::write_u16_le(&mut buffer[checksum_index..], checksum);

		// Throw away old data in the read buffer and the kernel read buffer.
		// We don't do this when reading a reply, because we might receive multiple replies for one instruction,
		// and read() can potentially read more than one reply per syscall.
		self.read_len = 0;
		self.used_bytes = 0;
		self.serial_port.discard_input_buffer().map_err(WriteError::DiscardBuffer)?;

		// Send message.
		let stuffed_message = &buffer[..checksum_index + 2];
		trace!("sending packet: {:02X?}", stuffed_message);
		self.serial_port.write_all(stuffed_message).map_err(WriteError::Write)?;
		Ok(())
	}
''','''		let message_len = self.build_packet(packet_id, instruction_id, parameter_count, encode_parameters)?;
		self.discard_input()?;
		self.send(message_len)
	}

	/// Build a packet in the write buffer and return its total length.
	fn build_packet<F>(
		&mut self,
		packet_id: u8,
		instruction_id: u8,
		parameter_count: usize,
		encode_parameters: F,
	) -> Result<usize, crate::error::BufferTooSmallError>
	where
		F: FnOnce(&mut [u8]) -> Result<(), crate::error::BufferTooSmallError>,
	{
		let buffer = self.write_buffer.as_mut();
		let capacity = buffer.len();
		crate::error::BufferTooSmallError::check(InstructionPacket::message_len(parameter_count), capacity)?;

		let body = &mut buffer[HEADER_SIZE..capacity - 2];
		body[0] = instruction_id;
		encode_parameters(&mut body[1..1 + parameter_count])?;
		let stuffed_body_len = bytestuff::stuff_inplace(body, 1 + parameter_count)?;
		crate::error::BufferTooSmallError::check(stuffed_body_len + 2, u16::MAX as usize)?;

		buffer[4] = packet_id;
		endian::write_u16_le(&mut buffer[5..7], (stuffed_body_len + 2) as u16);
		Ok(append_checksum(buffer, HEADER_SIZE + stuffed_body_len))
	}

	/// Throw away all input that was received before now.
	fn discard_input(&mut self) -> Result<(), WriteError<SerialPort::Error>> {
		self.used_bytes = 0;
		self.read_len = 0;
		match self.serial_port.discard_input_buffer() {
			Ok(()) => Ok(()),
			Err(e) => Err(WriteError::DiscardBuffer(e)),
		}
	}

	fn send(&mut self, message_len: usize) -> Result<(), WriteError<SerialPort::Error>> {
		let message = &self.write_buffer.as_ref()[..message_len];
		trace!("sending packet: {:02X?}", message);
		self.serial_port.write_all(message).map_err(WriteError::Write)
	}
'''),
(B,'''		let stuffed_message_len = loop {
			self.remove_garbage();

			// The call to remove_garbage() removes all leading bytes that don't match a packet header.
			// So if there's enough bytes left, it's a packet header.
			if self.read_len > HEADER_SIZE {
				let read_buffer = &self.read_buffer.as_mut()[..self.read_len];
				let body_len = endian::read_u16_le(&read_buffer[5..]) as usize;

				// The body must contain at least an instruction ID and a checksum.
				if body_len < 3 {
					self.consume_read_bytes(HEADER_SIZE);
					return Err(crate::InvalidMessage::InvalidParameterCount(crate::InvalidParameterCount {
						actual: body_len,
						expected: crate::ExpectedCount::Min(3),
					})
					.into());
				}

				// Check if the read buffer is large enough for the entire message.
				crate::error::BufferTooSmallError::check(HEADER_SIZE + body_len, self.read_buffer.as_mut().len()).inspect_err(|_| {
					self.consume_read_bytes(HEADER_SIZE);
				})?;

				if self.read_len >= HEADER_SIZE + body_len {
					break HEADER_SIZE + body_len;
				}
			}

			// Try to read more data into the buffer.
			let new_data = self
				.serial_port
				.read(&mut self.read_buffer.as_mut()[self.read_len..], &deadline)
				.map_err(ReadError::Io)?;

			self.read_len += new_data;
		};
''','''		let stuffed_message_len = loop {
			self.remove_garbage();
			match self.complete_message_len()? {
				Some(len) => break len,
				None => self.read_more(&deadline)?,
			}
		};
'''),
(B,'''	/// Remove leading garbage data from the read buffer.
''','''	/// Get the length of the message at the start of the read buffer, if it is complete.
	fn complete_message_len(&mut self) -> Result<Option<usize>, ReadError<SerialPort::Error>> {
		if self.read_len <= HEADER_SIZE {
			return Ok(None);
		}
		let capacity = self.read_buffer.as_ref().len();
		let body_len = usize::from(endian::read_u16_le(&self.read_buffer.as_ref()[5..7]));
		if body_len < 3 {
			self.consume_read_bytes(HEADER_SIZE);
			return Err(ReadError::InvalidMessage(
				crate::InvalidParameterCount {
					actual: body_len,
					expected: crate::ExpectedCount::Min(3),
				}
				.into(),
			));
		}
		let total = body_len + HEADER_SIZE;
		if let Err(e) = crate::error::BufferTooSmallError::check(total, capacity) {
			self.consume_read_bytes(HEADER_SIZE);
			return Err(e.into());
		}
		Ok(if self.read_len < total { None } else { Some(total) })
	}

	fn read_more(&mut self, deadline: &SerialPort::Instant) -> Result<(), ReadError<SerialPort::Error>> {
		let free = &mut self.read_buffer.as_mut()[self.read_len..];
		match self.serial_port.read(free, deadline) {
			Ok(count) => {
				self.read_len += count;
				Ok(())
			},
			Err(e) => Err(ReadError::Io(e)),
		}
	}

	/// Remove leading garbage data from the read buffer.
'''),
(B,'''fn find_header(buffer: &[u8]) -> usize {
	for i in 0..buffer.len() {
		let possible_prefix = HEADER_PREFIX.len().min(buffer.len() - i);
		if buffer[i..].starts_with(&HEADER_PREFIX[..possible_prefix]) {
			return i;
		}
	}

	buffer.len()
}
''','''fn find_header(buffer: &[u8]) -> usize {
	let mut start = 0;
	while start < buffer.len() && !may_be_header(&buffer[start..]) {
		start += 1;
	}
	start
}

/// Check if the data starts with a (possibly incomplete) header prefix.
fn may_be_header(data: &[u8]) -> bool {
	let len = data.len().min(HEADER_PREFIX.len());
	data[..len] == HEADER_PREFIX[..len]
}

/// Write the checksum after the first `len` bytes of the buffer and return the new length.
fn append_checksum(buffer: &mut [u8], len: usize) -> usize {
	let (message, tail) = buffer.split_at_mut(len);
	endian::write_u16_le(tail, checksum::calculate_checksum(0, message));
	len + 2
}
'''),
('src/client.rs','''		let deadline = self.serial_port().make_deadline(timeout);
		let packet = self.bus.read_packet_deadline(deadline)?;
		let status = match packet.as_status() {
			Some(status) => status,
			None => {
				return Err(crate::InvalidInstruction {
					actual: packet.instruction_id(),
					expected: instruction_id::STATUS,
				}
				.into())
			},
		};

		crate::MotorError::check(status.error())?;
		Ok(status)
''','''		let deadline = self.bus.serial_port.make_deadline(timeout);
		let packet = self.bus.read_packet_deadline(deadline)?;
		let Some(status) = packet.as_status() else {
			let actual = packet.instruction_id();
			return Err(ReadError::InvalidMessage(
				crate::InvalidInstruction {
					actual,
					expected: instruction_id::STATUS,
				}
				.into(),
			));
		};
		match crate::MotorError::check(status.error()) {
			Ok(()) => Ok(status),
			Err(e) => Err(e.into()),
		}
'''),
('src/client.rs','''		// Official SDK adds a flat 34 milliseconds, so lets just mimick that.
		let message_size = crate::bus::StatusPacket::message_len(expected_parameters as usize) as u32;
		let timeout = crate::bus::message_transfer_time(message_size, self.bus.baud_rate) + Duration::from_millis(34);
		self.read_status_response_timeout(timeout)
	}
''','''		let timeout = self.response_timeout(expected_parameters);
		self.read_status_response_timeout(timeout)
	}

	fn response_timeout(&self, expected_parameters: u16) -> Duration {
		// Official SDK adds a flat 34 milliseconds, so lets just mimick that.
		const EXTRA: Duration = Duration::from_millis(34);
		let size = StatusPacket::message_len(usize::from(expected_parameters));
		EXTRA + crate::bus::message_transfer_time(size as u32, self.baud_rate())
	}
'''),
('src/instructions/sync_read.rs','''	fn drop(&mut self) {
		while self.pop_motor_id().is_some() {
			self.client.read_status_response(self.count).ok();
		}
	}
''','''	fn drop(&mut self) {
		for _ in 0..self.remaining() {
			self.pop_motor_id();
			let _ = self.client.read_status_response(self.count);
		}
	}
'''),
('src/instructions/sync_read.rs','''	fn drop(&mut self) {
		while self.read_next().is_some() {}
	}
''','''	fn drop(&mut self) {
		while let Some(response) = self.next() {
			drop(response);
		}
	}
'''),
('src/instructions/bulk_read.rs','''	for i in 0..reads.len() {
		for j in i + 1..reads.len() {
			if reads[i].motor_id == reads[j].motor_id {
				panic!(
					"bulk_read_cb: motor ID {} used multiple at index {} and {}",
					reads[i].motor_id, i, j
				)
			}
		}
	}
''','''	for (i, read) in reads.iter().enumerate() {
		for (j, other) in reads.iter().enumerate().skip(i + 1) {
			if read.motor_id == other.motor_id {
				panic!("bulk_read_cb: motor ID {} used multiple at index {} and {}", read.motor_id, i, j)
			}
		}
	}
'''),
('src/instructions/bulk_read.rs','''		for (i, read) in reads.iter().enumerate() {
			let buffer = &mut buffer[i * 5..][..5];
			write_u8_le(&mut buffer[0..], read.motor_id);
			write_u16_le(&mut buffer[1..], read.address);
			write_u16_le(&mut buffer[3..], read.count);
		}
		Ok(())
''','''		for (read, buffer) in reads.iter().zip(buffer.chunks_exact_mut(5)) {
			write_u8_le(&mut buffer[0..], read.motor_id);
			write_u16_le(&mut buffer[1..], read.address);
			write_u16_le(&mut buffer[3..], read.count);
		}
		Ok(())
'''),
('src/instructions/bulk_read.rs','''		for data in &self.bulk_read_data[self.index..] {
			self.client.read_status_response(data.count).ok();
		}
''','''		while let Some(data) = self.pop_bulk_read_data() {
			self.client.read_status_response(data.count).ok();
		}
'''),
('src/instructions/bulk_write.rs','''				let buffer = &mut buffer[offset..];
				offset += 5 + data.len();
				write_u8_le(&mut buffer[0..], write.motor_id);
				write_u16_le(&mut buffer[1..], write.address);
				write_u16_le(&mut buffer[3..], data.len() as u16);
				buffer[5..][..data.len()].copy_from_slice(data);
''','''				let end = offset + 5 + data.len();
				write_u8_le(&mut buffer[offset..], write.motor_id);
				write_u16_le(&mut buffer[offset + 1..], write.address);
				write_u16_le(&mut buffer[offset + 3..], data.len() as u16);
				buffer[offset + 5..end].copy_from_slice(data);
				offset = end;
'''),
('src/instructions/sync_write.rs','''				assert_eq!(command.data.as_ref().len(), count as usize);
				let buffer = &mut buffer[4 + i * stride..][..stride];
				buffer[0] = command.motor_id;
				buffer[1..].copy_from_slice(command.data.as_ref());
''','''				let bytes = command.data.as_ref();
				assert_eq!(bytes.len(), usize::from(count));
				let start = 4 + i * stride;
				buffer[start] = command.motor_id;
				buffer[start + 1..start + stride].copy_from_slice(bytes);
'''),
('src/instructions/sync_write.rs','''			for (i, command) in data.enumerate() {
				let command = command.as_ref();
				let buffer = &mut buffer[4 + i * stride..][..stride];
				buffer[0] = command.motor_id;
				command.data.encode(&mut buffer[1..])?;
			}
''','''			for (command, buffer) in data.zip(buffer[4..].chunks_exact_mut(stride)) {
				let command = command.as_ref();
				buffer[0] = command.motor_id;
				command.data.encode(&mut buffer[1..])?;
			}
'''),
('src/instructions/mod.rs','''	if motor_id == packet_id::BROADCAST {
		Ok(crate::Response {
			motor_id: packet_id::BROADCAST,
			alert: false,
			data: (),
		})
	} else {
		let response = client.read_status_response(0)?;
		crate::InvalidPacketId::check(response.packet_id(), motor_id)?;
		Ok(response.try_into()?)
	}
''','''	if motor_id != packet_id::BROADCAST {
		let response = client.read_status_response(0)?;
		crate::InvalidPacketId::check(response.packet_id(), motor_id)?;
		return Ok(crate::Response::try_from(response)?);
	}
	Ok(crate::Response {
		motor_id,
		alert: false,
		data: (),
	})
'''),
('src/instructions/ping.rs','''		if self.done {
			return None;
		}
		let response = self.next_response();
		match response {
			Ok(response) => Some(Ok(response)),
			Err(ReadError::Io(e)) if SerialPort::is_timeout_error(&e) => {
				trace!("Ping response timed out.");
				None
			},
			Err(ReadError::Io(e)) => {
				// Do not keep reading from a broken serial port.
				self.done = true;
				Some(Err(ReadError::Io(e)))
			},
			Err(e) => Some(Err(e)),
		}
''','''		if self.done {
			return None;
		}
		let response = self.next_response();
		if let Err(ReadError::Io(e)) = &response {
			if SerialPort::is_timeout_error(e) {
				trace!("Ping response timed out.");
				return None;
			}
			// Do not keep reading from a broken serial port.
			self.done = true;
		}
		Some(response)
'''),
('src/serial_port/serial2.rs','''		let timeout = deadline
			.checked_duration_since(Instant::now())
			.ok_or(std::io::ErrorKind::TimedOut)?;
		self.set_read_timeout(timeout)?;
''','''		let now = Instant::now();
		let timeout = match deadline.checked_duration_since(now) {
			Some(timeout) => timeout,
			None => return Err(std::io::Error::from(std::io::ErrorKind::TimedOut)),
		};
		self.set_read_timeout(timeout)?;
'''),
('src/device.rs','''		loop {
			// SAFETY: This''','''		while let Some(()) = Some(()) {
			// SAFETY: This''') if 0 else
('src/device.rs','''			if let Some(instruction) = packet.as_instruction() {
				return Ok(instruction);
			}
''','''			match packet.as_instruction() {
				Some(instruction) => return Ok(instruction),
				None => continue,
			}
'''),
('src/device.rs','''				InvalidParameterCount::check(parameters.len(), 1)?;
				let reset_type = match parameters[0] {
					0xFF => FactoryReset::All,
					0x01 => FactoryReset::ExceptId,
					0x02 => FactoryReset::ExceptIdBaudRate,
					p => FactoryReset::Unknown(p),
				};
				Instructions::FactoryReset(reset_type)
''','''				InvalidParameterCount::check(parameters.len(), 1)?;
				Instructions::FactoryReset(decode_factory_reset(parameters[0]))
'''),
('src/device.rs','''#[derive(Debug)]
pub enum FactoryReset {''' if 0 else '''#[cfg(any(feature = "std", feature = "alloc"))]
impl<'a> TryFrom<''','''fn decode_factory_reset(raw: u8) -> FactoryReset {
	if raw == 0xFF {
		FactoryReset::All
	} else if raw == 1 {
		FactoryReset::ExceptId
	} else if raw == 2 {
		FactoryReset::ExceptIdBaudRate
	} else {
		FactoryReset::Unknown(raw)
	}
}

#[cfg(any(feature = "std", feature = "alloc"))]
impl<'a> TryFrom<'''),
('src/bus/bytestuff.rs','''	for i in 0..data.len() {
		if data[i] == PATTERN[state] {
			state += 1;
		} else if data[i] == PATTERN[0] {
			// Three or more 0xFF bytes in a row still end with two of them.
			state = if state == 2 { 2 } else { 1 };
		} else {
			state = 0;
		}
		if state == 4 {
			state = 0;
			deleted += 1;
		} else if deleted > 0 {
			data[i - deleted] = data[i]
		}
	}

	data.len() - deleted
''','''	for i in 0..data.len() {
		let byte = data[i];
		state = match (state, byte) {
			(0, 0xFF) => 1,
			(1, 0xFF) => 2,
			(2, 0xFF) => 2,
			(2, 0xFD) => 3,
			(3, 0xFD) => 4,
			(3, 0xFF) => 1,
			_ => 0,
		};
		if state == 4 {
			state = 0;
			deleted += 1;
			continue;
		}
		data[i - deleted] = byte;
	}

	data.len() - deleted
'''),
]
