# Loops rewritten with iterators, combinators instead of matches, slice patterns, private names changed.
B='src/bus/mod.rs'
EDITS=[
(B,'''fn find_header(buffer: &[u8]) -> usize {
	for i in 0..buffer.len() {
		let possible_prefix = HEADER_PREFIX.len().min(buffer.len() - i);
		if buffer[i..].starts_with(&HEADER_PREFIX[..possible_prefix]) {
			return i;
		}
	}

	buffer.len()
}
''','''fn find_header(buffer: &[u8]) -> usize {
	(0..buffer.len())
		.find(|&i| {
			let tail = &buffer[i..];
			let n = core::cmp::min(HEADER_PREFIX.len(), tail.len());
			tail[..n] == HEADER_PREFIX[..n]
		})
		.unwrap_or(buffer.len())
}
'''),
(B,'''	let baud_rate = u64::from(baud_rate);
	let bits = u64::from(message_size) * 10; // each byte is 1 start bit, 8 data bits and 1 stop bit.
	let secs = bits / baud_rate;
	let subsec_bits = bits % baud_rate;
	let nanos = (subsec_bits * 1_000_000_000).div_ceil(baud_rate);
	Duration::new(secs, nanos as u32)
''','''	const BITS_PER_BYTE: u64 = 10;
	const NANOS_PER_SEC: u64 = 1_000_000_000;
	let rate = baud_rate as u64;
	let bits = BITS_PER_BYTE * message_size as u64;
	let remainder = bits % rate;
	let nanos = (remainder * NANOS_PER_SEC + (rate - 1)) / rate;
	Duration::from_secs(bits / rate) + Duration::from_nanos(nanos)
'''),
(B,'''		let read_buffer = self.read_buffer.as_mut();
		let garbage_len = find_header(&read_buffer[..self.read_len][self.used_bytes..]);
		if garbage_len > 0 {
			debug!("skipping {} bytes of leading garbage.", garbage_len);
			trace!("skipped garbage: {:02X?}", &read_buffer[..garbage_len]);
		}
		self.consume_read_bytes(self.used_bytes + garbage_len);
		debug_assert_eq!(self.used_bytes, 0);
''','''		let unread = &self.read_buffer.as_ref()[self.used_bytes..self.read_len];
		let garbage_len = find_header(unread);
		if garbage_len != 0 {
			debug!("skipping {} bytes of leading garbage.", garbage_len);
			trace!("skipped garbage: {:02X?}", &unread[..garbage_len]);
		}
		let remove = garbage_len + self.used_bytes;
		if remove > 0 {
			self.consume_read_bytes(remove);
		}
		debug_assert!(self.used_bytes == 0);
'''),
(B,'''		self.read_buffer.as_mut().copy_within(len..self.read_len, 0);
		// Decrease both used_bytes and read_len together.
		// Some consumed bytes may be garbage instead of used bytes though.
		// So we use `saturating_sub` for `used_bytes` to cap the result at 0.
		self.used_bytes = self.used_bytes.saturating_sub(len);
		self.read_len -= len;
''','''		let end = self.read_len;
		self.read_buffer.as_mut()[..end].copy_within(len.., 0);
		self.read_len = end - len;
		self.used_bytes = if self.used_bytes > len { self.used_bytes - len } else { 0 };
'''),
(B,'''			if self.read_len > HEADER_SIZE {
				let read_buffer = &self.read_buffer.as_mut()[..self.read_len];
				let body_len = endian::read_u16_le(&read_buffer[5..]) as usize;
''','''			if let [_, _, _, _, _, low, high, _, ..] = self.read_buffer.as_ref()[..self.read_len] {
				let body_len = usize::from(u16::from_le_bytes([low, high]));
'''),
(B,'''			// Try to read more data into the buffer.
			let new_data = self
				.serial_port
				.read(&mut self.read_buffer.as_mut()[self.read_len..], &deadline)
				.map_err(ReadError::Io)?;

			self.read_len += new_data;
''','''			// Try to read more data into the buffer.
			let (_, free) = self.read_buffer.as_mut().split_at_mut(self.read_len);
			self.read_len += self.serial_port.read(free, &deadline).map_err(|e| ReadError::Io(e))?;
'''),
(B,'''		let checksum_message = endian::read_u16_le(&buffer[parameters_end..]);
		let checksum_computed = checksum::calculate_checksum(0, &buffer[..parameters_end]);
		if checksum_message != checksum_computed {
			self.consume_read_bytes(stuffed_message_len);
			return Err(crate::InvalidChecksum {
				message: checksum_message,
				computed: checksum_computed,
			}
			.into());
		}

		// Mark the whole message as "used_bytes", so that the next call to `remove_garbage()` removes it.
		self.used_bytes += stuffed_message_len;
''','''		let computed = checksum::calculate_checksum(0, &buffer[..parameters_end]);
		let message = endian::read_u16_le(&buffer[parameters_end..stuffed_message_len]);

		// Mark the whole message as "used_bytes", so that the next call to `remove_garbage()` removes it.
		self.used_bytes = stuffed_message_len;
		if message != computed {
			return Err(ReadError::InvalidMessage(crate::InvalidMessage::InvalidChecksum(crate::InvalidChecksum {
				message,
				computed,
			})));
		}
'''),
(B,'''		let data = &self.read_buffer.as_ref()[..HEADER_SIZE + parameter_count];
		let packet = packet::Packet { data };
''','''		let (data, _) = self.read_buffer.as_ref().split_at(HEADER_SIZE + parameter_count);
		let packet = packet::Packet { data };
'''),
(B,'''			parameter_count + 1,
			|buffer| {
				buffer[0] = error;
				encode_parameters(&mut buffer[1..])
			},
''','''			1 + parameter_count,
			|buffer| match buffer.split_first_mut() {
				Some((first, rest)) => {
					*first = error;
					encode_parameters(rest)
				},
				None => unreachable!(),
			},
'''),
('src/bus/endian.rs','''	buffer[0] = (value & 0xFF) as u8;
	buffer[1] = ((value >> 8) & 0xFF) as u8;
''','''	buffer[..2].copy_from_slice(&value.to_le_bytes());
'''),
('src/bus/endian.rs','''	let low = buffer[0] as u16;
	let high = buffer[1] as u16;
	low | (high << 8)
''','''	u16::from_le_bytes([buffer[0], buffer[1]])
'''),
('src/checksum.rs','''	let mut checksum = initial;
	for &byte in data {
		let index = ((checksum >> 8) ^ (byte as u16) & 0xff) as usize;
		checksum = (checksum << 8) ^ TABLE[index];
	}

	checksum
''','''	data.iter().fold(initial, |checksum, &byte| {
		let [high, low] = checksum.to_be_bytes();
		TABLE[usize::from(high ^ byte)] ^ (u16::from(low) << 8)
	})
'''),
('src/bus/bytestuff.rs','''	let mut state = 0;
	let mut count = 0;
	for &byte in data {
		if byte == PATTERN[state] {
			state += 1;
		} else if state == 2 && byte == PATTERN[0] {
			// Three or more 0xFF bytes in a row still end with two of them.
			state = 2;
		} else {
			state = 0;
		}
		if state == PATTERN.len() - 1 {
			state = 0;
			count += 1;
		}
	}

	count
''','''	data.windows(3).filter(|window| *window == &PATTERN[..3]).count()
'''),
('src/bus/bytestuff.rs','''	while read < len && stuffing_applied < stuffing_required {
		let read_pos = len - read - 1;
		let write_pos = read_pos + (stuffing_required - stuffing_applied);
		if read_pos >= 2 && buffer[read_pos - 2..][..3] == PATTERN[..3] {
			buffer[write_pos - 3..][..4].copy_from_slice(&PATTERN);
			read += 3;
			stuffing_applied += 1;
		} else {
			buffer[write_pos] = buffer[read_pos];
			read += 1;
		}
	}
''','''	while stuffing_applied != stuffing_required {
		let read_pos = len - read - 1;
		let missing = stuffing_required - stuffing_applied;
		if read_pos >= 2 && buffer[read_pos - 2..=read_pos] == PATTERN[..3] {
			let end = read_pos + missing + 1;
			buffer[end - 4..end].copy_from_slice(&PATTERN);
			stuffing_applied += 1;
			read += 3;
			continue;
		}
		buffer[read_pos + missing] = buffer[read_pos];
		read += 1;
	}
'''),
('src/bus/packet.rs','''		if self.instruction_id() == crate::instructions::instruction_id::STATUS {
			Some(StatusPacket { packet: self })
		} else {
			None
		}
''','''		match self.instruction_id() {
			crate::instructions::instruction_id::STATUS => Some(StatusPacket { packet: self }),
			_ => None,
		}
'''),
('src/bus/packet.rs','''		if self.instruction_id() != crate::instructions::instruction_id::STATUS {
			Some(InstructionPacket { packet: self })
		} else {
			None
		}
''','''		self.as_status().is_none().then_some(InstructionPacket { packet: self })
'''),
('src/bus/packet.rs','''		self.error() & !0x80
''','''		self.error() & 0x7F
'''),
('src/bus/packet.rs','''		self.error() & 0x80 != 0
''','''		self.error() >= 0x80
'''),
('src/client.rs','''		self.write_instruction(packet_id, instruction_id, parameter_count, encode_parameters)?;
		let response = self.read_status_response(expected_response_parameters)?;
		crate::error::InvalidPacketId::check(response.packet_id(), packet_id).map_err(crate::ReadError::from)?;
		Ok(response)
''','''		self.write_instruction(packet_id, instruction_id, parameter_count, encode_parameters)
			.map_err(TransferError::WriteError)?;
		self.read_status_response(expected_response_parameters)
			.and_then(|response| {
				crate::InvalidPacketId::check(response.packet_id(), packet_id)?;
				Ok(response)
			})
			.map_err(TransferError::ReadError)
'''),
('src/client.rs','''		let status = match packet.as_status() {
			Some(status) => status,
			None => {
				return Err(crate::InvalidInstruction {
					actual: packet.instruction_id(),
					expected: instruction_id::STATUS,
				}
				.into())
			},
		};

		crate::MotorError::check(status.error())?;
		Ok(status)
''','''		crate::InvalidInstruction::check(packet.instruction_id(), instruction_id::STATUS)?;
		let status = packet.as_status().unwrap();
		crate::MotorError::check(status.error()).map_err(ReadError::MotorError).map(|()| status)
'''),
('src/instructions/bulk_read.rs','''	for i in 0..reads.len() {
		for j in i + 1..reads.len() {
			if reads[i].motor_id == reads[j].motor_id {
				panic!(
					"bulk_read_cb: motor ID {} used multiple at index {} and {}",
					reads[i].motor_id, i, j
				)
			}
		}
	}
''','''	let mut seen = [None; 256];
	for (j, read) in reads.iter().enumerate() {
		if let Some(i) = seen[usize::from(read.motor_id)].replace(j) {
			panic!("bulk_read_cb: motor ID {} used multiple at index {} and {}", read.motor_id, i, j)
		}
	}
'''),
('src/instructions/bulk_read.rs','''		let BulkReadData { motor_id, count, .. } = self.pop_bulk_read_data()?;
		Some(self.next_response(motor_id, count))
''','''		self.pop_bulk_read_data().map(|read| self.next_response(read.motor_id, read.count))
'''),
('src/instructions/bulk_read.rs','''		let data = self.bulk_read_data.get(self.index)?;
		self.index += 1;
		Some(*data)
''','''		if self.remaining() == 0 {
			return None;
		}
		let data = self.bulk_read_data[self.index];
		self.index += 1;
		Some(data)
'''),
('src/instructions/sync_read.rs','''		while self.pop_motor_id().is_some() {
			self.client.read_status_response(self.count).ok();
		}
''','''		while self.index < self.motor_ids.len() {
			self.index += 1;
			self.client.read_status_response(self.count).ok();
		}
'''),
('src/instructions/bulk_write.rs','''			for write in writes {
				let write = write.borrow();
				let data = write.data.as_ref();
				let buffer = &mut buffer[offset..];
				offset += 5 + data.len();
				write_u8_le(&mut buffer[0..], write.motor_id);
				write_u16_le(&mut buffer[1..], write.address);
				write_u16_le(&mut buffer[3..], data.len() as u16);
				buffer[5..][..data.len()].copy_from_slice(data);
			}
			Ok(())
''','''			writes.for_each(|write| {
				let write = write.borrow();
				let data = write.data.as_ref();
				let (header, rest) = buffer[offset..].split_at_mut(5);
				write_u8_le(&mut header[0..1], write.motor_id);
				write_u16_le(&mut header[1..3], write.address);
				write_u16_le(&mut header[3..5], data.len() as u16);
				rest[..data.len()].copy_from_slice(data);
				offset += 5 + data.len();
			});
			Ok(())
'''),
('src/device.rs','''		loop {
			// SAFETY: This is a workaround for a limitation in the borrow checker.
			// Even though `packet` is dropped inside the loop body, it has lifetime 'a, which outlives the current function.
			// So each loop iteration tries to borrow the same field mutably, with the a lifetime that outlives the current function.
			// Borrow checker says no.
			// TODO: Remove this workaround when the borrow checker can validate this.
			let bus: &mut Bus<SerialPort, Buffer> = unsafe { &mut *(&mut self.bus as *mut _) };
			let packet = bus.read_packet_deadline(deadline)?;
			if let Some(instruction) = packet.as_instruction() {
				return Ok(instruction);
			}
		}
''','''		let bus: *mut Bus<SerialPort, Buffer> = &mut self.bus;
		loop {
			// SAFETY: The packet of the previous iteration is not used any more.
			let packet = unsafe { (*bus).read_packet_deadline(deadline) }?;
			if packet.instruction_id() == instruction_id::STATUS {
				continue;
			}
			return Ok(packet.as_instruction().unwrap());
		}
'''),
('src/serial_port/serial2.rs','''		let timeout = deadline
			.checked_duration_since(Instant::now())
			.ok_or(std::io::ErrorKind::TimedOut)?;
''','''		let now = Instant::now();
		if now > *deadline {
			return Err(std::io::ErrorKind::TimedOut.into());
		}
		let timeout = deadline.duration_since(now);
'''),
('src/serial_port/serial2.rs','''		let mut settings = self.get_configuration()?;
		settings.set_baud_rate(baud_rate)?;
		self.set_configuration(&settings)?;
		Ok(())
''','''		self.get_configuration().and_then(|mut settings| {
			settings.set_baud_rate(baud_rate)?;
			self.set_configuration(&settings)
		})
'''),
('src/response.rs','''		crate::InvalidParameterCount::check(status_packet.parameters().len(), 0)?;
		Ok(Self {
			motor_id: status_packet.packet_id(),
			alert: status_packet.alert(),
			data: (),
		})
''','''		let Response { motor_id, alert, data } = Response::<&[u8]>::from(status_packet);
		crate::InvalidParameterCount::check(data.len(), 0)?;
		Ok(Self { motor_id, alert, data: () })
'''),
('src/bus/data.rs','''		let mut output = ArrayInitializer::new();
		for i in 0..N {
			let value = T::decode(&buffer[i * encoded_size..][..encoded_size])?;
''','''		let mut output = ArrayInitializer::new();
		for i in 0..N {
			let start = i * encoded_size;
			let end = start + encoded_size;
			let value = T::decode(&buffer[start..end])?;
'''),
('src/bus/data.rs','''		for (i, value) in self.iter().enumerate() {
			value.encode(&mut buffer[i * encoded_size..][..encoded_size])?;
		}
		Ok(())
''','''		let mut rest = buffer;
		for value in self {
			let (slot, tail) = rest.split_at_mut(encoded_size);
			value.encode(slot)?;
			rest = tail;
		}
		Ok(())
'''),
]
