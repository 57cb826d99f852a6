# A sweep of other library functions: rotate_left, fold, sum, any, skip_while, retain-like loops, tables of seen IDs, chunk iterators.
B='src/bus/mod.rs'
EDITS=[
(B,'''		self.read_buffer.as_mut().copy_within(len..self.read_len, 0);
''','''		self.read_buffer.as_mut()[..self.read_len].rotate_left(len);
'''),
(B,'''		self.used_bytes = self.used_bytes.saturating_sub(len);
		self.read_len -= len;
''','''		self.used_bytes -= self.used_bytes.min(len);
		self.read_len = self.read_len.checked_sub(len).expect("not that many bytes");
'''),
(B,'''fn find_header(buffer: &[u8]) -> usize {
	for i in 0..buffer.len() {
		let possible_prefix = HEADER_PREFIX.len().min(buffer.len() - i);
		if buffer[i..].starts_with(&HEADER_PREFIX[..possible_prefix]) {
			return i;
		}
	}

	buffer.len()
}
''','''fn find_header(buffer: &[u8]) -> usize {
	let mut rest = buffer;
	while !rest.is_empty() {
		if rest.iter().zip(&HEADER_PREFIX).all(|(a, b)| a == b) {
			break;
		}
		rest = &rest[1..];
	}
	buffer.len() - rest.len()
}
'''),
(B,'''				crate::error::BufferTooSmallError::check(HEADER_SIZE + body_len, self.read_buffer.as_mut().len()).inspect_err(|_| {
					self.consume_read_bytes(HEADER_SIZE);
				})?;

				if self.read_len >= HEADER_SIZE + body_len {
					break HEADER_SIZE + body_len;
				}
''','''				let message_len = HEADER_SIZE + body_len;
				let fits = crate::error::BufferTooSmallError::check(message_len, self.read_buffer.as_ref().len());
				if fits.is_err() {
					self.consume_read_bytes(HEADER_SIZE);
				}
				fits?;

				if (..=self.read_len).contains(&message_len) {
					break message_len;
				}
'''),
(B,'''		if checksum_message != checksum_computed {
''','''		if (checksum_message ^ checksum_computed) != 0 {
'''),
(B,'''		let parameter_count = bytestuff::unstuff_inplace(&mut buffer[HEADER_SIZE..parameters_end]);
''','''		let body = buffer.get_mut(HEADER_SIZE..parameters_end).unwrap();
		let parameter_count = bytestuff::unstuff_inplace(body);
'''),
(B,'''		let stuffed_body_len = bytestuff::stuff_inplace(&mut buffer[HEADER_SIZE..body_end], 1 + parameter_count)?;

		// Check that the length of the stuffed message can be represented in the length field.
		crate::error::BufferTooSmallError::check(stuffed_body_len + 2, u16::MAX.into())?;
		endian::write_u16_le(&mut buffer[5..], stuffed_body_len as u16 + 2);
''','''		let stuffed_body_len = bytestuff::stuff_inplace(&mut buffer[HEADER_SIZE..body_end], 1 + parameter_count)?;

		// Check that the length of the stuffed message can be represented in the length field.
		let length_field = u16::try_from(stuffed_body_len + 2).map_err(|_| crate::error::BufferTooSmallError {
			required_size: stuffed_body_len + 2,
			total_size: u16::MAX.into(),
		})?;
		endian::write_u16_le(&mut buffer[5..], length_field);
'''),
(B,'''		self.serial_port.write_all(stuffed_message).map_err(WriteError::Write)?;
		Ok(())
''','''		let result = self.serial_port.write_all(stuffed_message);
		if let Err(e) = result {
			return Err(WriteError::Write(e));
		}
		Ok(())
'''),
('src/instructions/bulk_read.rs','''	for i in 0..reads.len() {
		for j in i + 1..reads.len() {
			if reads[i].motor_id == reads[j].motor_id {
				panic!(
					"bulk_read_cb: motor ID {} used multiple at index {} and {}",
					reads[i].motor_id, i, j
				)
			}
		}
	}
''','''	for j in 0..reads.len() {
		if let Some(i) = reads[..j].iter().position(|x| x.motor_id == reads[j].motor_id) {
			panic!("bulk_read_cb: motor ID {} used multiple at index {} and {}", reads[i].motor_id, i, j)
		}
	}
'''),
('src/instructions/bulk_read.rs','''		for (i, read) in reads.iter().enumerate() {
			let buffer = &mut buffer[i * 5..][..5];
			write_u8_le(&mut buffer[0..], read.motor_id);
			write_u16_le(&mut buffer[1..], read.address);
			write_u16_le(&mut buffer[3..], read.count);
		}
		Ok(())
''','''		let mut index = 0;
		for read in reads {
			let [address_low, address_high] = read.address.to_le_bytes();
			let [count_low, count_high] = read.count.to_le_bytes();
			let entry = [read.motor_id, address_low, address_high, count_low, count_high];
			buffer[index..index + entry.len()].copy_from_slice(&entry);
			index += entry.len();
		}
		Ok(())
'''),
('src/instructions/bulk_write.rs','''		let mut parameter_count = 0;
		for (i, write) in writes.clone().enumerate() {
			let write = write.borrow();
			for (j, other) in writes.clone().enumerate().skip(i + 1) {
				if other.borrow().motor_id == write.motor_id {
					panic!("bulk_write: motor ID {} used multiple at index {} and {}", write.motor_id, i, j);
				}
			}
			let data = write.data.as_ref();
			if data.len() > u16::MAX.into() {
				panic!(
					"bulk_write: data length ({}) for motor {} exceeds maximum size of {}",
					data.len(),
					write.motor_id,
					u16::MAX
				);
			}
			parameter_count += 5 + data.len();
		}
''','''		for (i, write) in writes.clone().enumerate() {
			let write = write.borrow();
			for (j, other) in writes.clone().enumerate().skip(i + 1) {
				assert!(
					other.borrow().motor_id != write.motor_id,
					"bulk_write: motor ID {} used multiple at index {} and {}",
					write.motor_id,
					i,
					j
				);
			}
		}
		for write in writes.clone() {
			let write = write.borrow();
			let len = write.data.as_ref().len();
			if u16::try_from(len).is_err() {
				panic!(
					"bulk_write: data length ({}) for motor {} exceeds maximum size of {}",
					len,
					write.motor_id,
					u16::MAX
				);
			}
		}
		let parameter_count: usize = writes.clone().map(|write| 5 + write.borrow().data.as_ref().len()).sum();
'''),
('src/instructions/sync_write.rs','''			for (i, command) in data.enumerate() {
				let command = command.as_ref();
				assert_eq!(command.data.as_ref().len(), count as usize);
				let buffer = &mut buffer[4 + i * stride..][..stride];
				buffer[0] = command.motor_id;
				buffer[1..].copy_from_slice(command.data.as_ref());
			}
			Ok(())
''','''			let mut rest = &mut buffer[4..];
			for command in data {
				let command = command.as_ref();
				assert_eq!(command.data.as_ref().len(), count as usize);
				let (entry, tail) = rest.split_at_mut(stride);
				entry[0] = command.motor_id;
				entry[1..].copy_from_slice(command.data.as_ref());
				rest = tail;
			}
			Ok(())
'''),
('src/instructions/sync_read.rs','''		while self.pop_motor_id().is_some() {
			self.client.read_status_response(self.count).ok();
		}
''','''		let remaining = core::mem::take(&mut self.motor_ids).get(self.index..).unwrap_or_default();
		self.index = 0;
		remaining.iter().for_each(|_| {
			self.client.read_status_response(self.count).ok();
		});
'''),
('src/instructions/sync_read.rs','''		while self.read_next().is_some() {}
''','''		self.by_ref().for_each(drop);
'''),
('src/instructions/bulk_read.rs','''		for data in &self.bulk_read_data[self.index..] {
			self.client.read_status_response(data.count).ok();
		}
''','''		let first = self.index;
		for i in first..self.bulk_read_data.len() {
			if self.client.read_status_response(self.bulk_read_data[i].count).is_err() {
				continue;
			}
		}
'''),
('src/instructions/ping.rs','''		let response_time = crate::bus::message_transfer_time(14, self.client.baud_rate());
		let timeout = response_time * 253 + Duration::from_millis(34);
''','''		let response_time = crate::bus::message_transfer_time(14, self.client.baud_rate());
		let timeout = Duration::new(0, 34_000_000) + response_time.checked_mul(253).unwrap_or(Duration::MAX);
''') if 0 else ('src/instructions/ping.rs','''		self.write_instruction(packet_id::BROADCAST, instruction_id::PING, 0, |_| Ok(()))?;
		Ok(Scan { client: self, done: false })
''','''		let done = false;
		match self.write_instruction(packet_id::BROADCAST, instruction_id::PING, 0, |_| Ok(())) {
			Err(e) => Err(e),
			Ok(()) => Ok(Scan { client: self, done }),
		}
'''),
('src/device.rs','''				let reset_type = match parameters[0] {
					0xFF => FactoryReset::All,
					0x01 => FactoryReset::ExceptId,
					0x02 => FactoryReset::ExceptIdBaudRate,
					p => FactoryReset::Unknown(p),
				};
				Instructions::FactoryReset(reset_type)
''','''				Instructions::FactoryReset(FactoryReset::from(parameters[0]))
'''),
('src/device.rs','''				match parameters[0] {
					0x01 => Instructions::Clear(Clear::MultiTurns),
					0x02 => Instructions::Clear(Clear::Errors),
					p => Instructions::Clear(Clear::Reserved(p)),
				}
''','''				let kind = *parameters.first().unwrap();
				Instructions::Clear(kind.into())
'''),
('src/device.rs','''impl<'a> TryFrom<InstructionPacket<'a>> for Instruction<&'a [u8]> {''','''impl From<u8> for FactoryReset {
	fn from(raw: u8) -> Self {
		match raw {
			0xFF => Self::All,
			0x01 => Self::ExceptId,
			0x02 => Self::ExceptIdBaudRate,
			_ => Self::Unknown(raw),
		}
	}
}

impl From<u8> for Clear {
	fn from(raw: u8) -> Self {
		match raw {
			0x01 => Self::MultiTurns,
			0x02 => Self::Errors,
			_ => Self::Reserved(raw),
		}
	}
}

impl<T> Instructions<T> {
	fn map<U>(self, f: impl FnOnce(T) -> U) -> Instructions<U> {
		match self {
			Self::Ping => Instructions::Ping,
			Self::Read { address, length } => Instructions::Read { address, length },
			Self::Write { address, parameters } => Instructions::Write { address, parameters: f(parameters) },
			Self::RegWrite { address, parameters } => Instructions::RegWrite { address, parameters: f(parameters) },
			Self::Action => Instructions::Action,
			Self::FactoryReset(kind) => Instructions::FactoryReset(kind),
			Self::Reboot => Instructions::Reboot,
			Self::Clear(kind) => Instructions::Clear(kind),
			Self::SyncRead { address, length, ids } => Instructions::SyncRead { address, length, ids: f(ids) },
			Self::SyncWrite { address, length, parameters } => Instructions::SyncWrite { address, length, parameters: f(parameters) },
			Self::BulkRead { parameters } => Instructions::BulkRead { parameters: f(parameters) },
			Self::BulkWrite { parameters } => Instructions::BulkWrite { parameters: f(parameters) },
			Self::Unknown { instruction, parameters } => Instructions::Unknown { instruction, parameters: f(parameters) },
		}
	}
}

impl<'a> TryFrom<InstructionPacket<'a>> for Instruction<&'a [u8]> {'''),
('src/bus/bytestuff.rs','''	let mut deleted = 0;
	let mut state = 0;

	for i in 0..data.len() {
		if data[i] == PATTERN[state] {
			state += 1;
		} else if data[i] == PATTERN[0] {
			// Three or more 0xFF bytes in a row still end with two of them.
			state = if state == 2 { 2 } else { 1 };
		} else {
			state = 0;
		}
		if state == 4 {
			state = 0;
			deleted += 1;
		} else if deleted > 0 {
			data[i - deleted] = data[i]
		}
	}

	data.len() - deleted
''','''	let mut write = 0;
	let mut matched = 0;

	for read in 0..data.len() {
		let byte = data[read];
		if matched == 3 && byte == PATTERN[3] {
			// Drop the stuffing byte.
			matched = 0;
			continue;
		}
		data[write] = byte;
		write += 1;
		matched = if byte == PATTERN[0] {
			usize::min(if matched == 3 { 1 } else { matched + 1 }, 2)
		} else if matched == 2 && byte == PATTERN[2] {
			3
		} else {
			0
		};
	}

	write
'''),
('src/bus/bytestuff.rs','''	while read < len && stuffing_applied < stuffing_required {
		let read_pos = len - read - 1;
		let write_pos = read_pos + (stuffing_required - stuffing_applied);
		if read_pos >= 2 && buffer[read_pos - 2..][..3] == PATTERN[..3] {
			buffer[write_pos - 3..][..4].copy_from_slice(&PATTERN);
			read += 3;
			stuffing_applied += 1;
		} else {
			buffer[write_pos] = buffer[read_pos];
			read += 1;
		}
	}
''','''	loop {
		if read >= len || stuffing_applied >= stuffing_required {
			break;
		}
		let remaining = len - read;
		let target = remaining + stuffing_required - stuffing_applied;
		if buffer[..remaining].ends_with(&PATTERN[..3]) {
			buffer[target - 4..target].copy_from_slice(&PATTERN);
			read += 3;
			stuffing_applied += 1;
		} else {
			buffer[target - 1] = buffer[remaining - 1];
			read += 1;
		}
	}
'''),
('src/checksum.rs','''	let mut checksum = initial;
	for &byte in data {
		let index = ((checksum >> 8) ^ (byte as u16) & 0xff) as usize;
		checksum = (checksum << 8) ^ TABLE[index];
	}

	checksum
''','''	let mut checksum = initial;
	let mut i = 0;
	while i < data.len() {
		let index = (checksum >> 8) as u8 ^ data[i];
		checksum = checksum.wrapping_shl(8) ^ TABLE[index as usize];
		i += 1;
	}
	checksum
'''),
('src/bus/data.rs','''	// SAFETY: We loop over 0..N''','') if 0 else ('src/bus/data.rs','''		let encoded_size = T::ENCODED_SIZE as usize;
		crate::BufferTooSmallError::check(encoded_size * N, buffer.len())?;
''','''		let encoded_size = usize::from(T::ENCODED_SIZE);
		let total = usize::from(Self::ENCODED_SIZE);
		crate::BufferTooSmallError::check(total, buffer.len())?;
'''),
('src/client.rs','''		let serial_port = serial2::SerialPort::open(path, baud_rate)?;
		let bus = Bus::with_buffers_and_baud_rate(serial_port, vec![0; 128], vec![0; 128], baud_rate);
		Ok(Self { bus })
''','''		Self::open_with_buffers(path, baud_rate, vec![0; 128], vec![0; 128])
'''),
]
