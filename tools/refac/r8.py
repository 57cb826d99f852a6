V='src/device.rs'
P='src/bus/packet.rs'
B='src/bus/mod.rs'
R='src/instructions/sync_read.rs'
W='src/instructions/sync_write.rs'
E='src/error.rs'
D='src/bus/data.rs'
I='src/instructions/mod.rs'
EDITS=[
# device: patterns instead of checks and indexing
(V,'''				InvalidParameterCount::check(parameters.len(), 4)?;
				Instructions::Read {
					address: read_u16_le(&parameters[..2]),
					length: read_u16_le(&parameters[2..4]),
				}
''','''				let &[a0, a1, l0, l1] = parameters else {
					return Err(InvalidParameterCount {
						actual: parameters.len(),
						expected: crate::ExpectedCount::Exact(4),
					});
				};
				Instructions::Read {
					address: u16::from_le_bytes([a0, a1]),
					length: u16::from_le_bytes([l0, l1]),
				}
'''),
(V,'''				InvalidParameterCount::check_min(parameters.len(), 2)?;
				Instructions::Write {
					address: read_u16_le(&parameters[..2]),
					parameters: &parameters[2..],
				}
''','''				let (address, parameters) = take_u16(parameters, 2)?;
				Instructions::Write { address, parameters }
'''),
(V,'''				InvalidParameterCount::check_min(parameters.len(), 2)?;
				Instructions::RegWrite {
					address: read_u16_le(&parameters[..2]),
					parameters: &parameters[2..],
				}
''','''				let (address, parameters) = take_u16(parameters, 2)?;
				Instructions::RegWrite { address, parameters }
'''),
(V,'''				InvalidParameterCount::check_min(parameters.len(), 4)?;
				Instructions::SyncRead {
					address: read_u16_le(&parameters[..2]),
					length: read_u16_le(&parameters[2..4]),
					ids: &parameters[4..],
				}
''','''				let (address, rest) = take_u16(parameters, 4)?;
				let (length, ids) = take_u16(rest, 2)?;
				Instructions::SyncRead { address, length, ids }
'''),
(V,'''				InvalidParameterCount::check_min(parameters.len(), 4)?;
				Instructions::SyncWrite {
					address: read_u16_le(&parameters[..2]),
					length: read_u16_le(&parameters[2..4]),
					parameters: &parameters[4..],
				}
''','''				let (address, rest) = take_u16(parameters, 4)?;
				let (length, parameters) = take_u16(rest, 2)?;
				Instructions::SyncWrite {
					address,
					length,
					parameters,
				}
'''),
(V,'''				InvalidParameterCount::check_min(parameters.len(), 1)?;
				match parameters[0] {
					0x01 => Instructions::Clear(Clear::MultiTurns),
					0x02 => Instructions::Clear(Clear::Errors),
					p => Instructions::Clear(Clear::Reserved(p)),
				}
''','''				Instructions::Clear(match parameters.first().copied() {
					None => {
						return Err(InvalidParameterCount {
							actual: 0,
							expected: crate::ExpectedCount::Min(1),
						})
					},
					Some(0x01) => Clear::MultiTurns,
					Some(0x02) => Clear::Errors,
					Some(p) => Clear::Reserved(p),
				})
'''),
(V,'''/// The options for the [Factory Reset]''','''/// Take a number from the start of the parameters, of which there must be at least `min`.
fn take_u16(parameters: &[u8], min: usize) -> Result<(u16, &[u8]), InvalidParameterCount> {
	InvalidParameterCount::check_min(parameters.len(), min)?;
	let (number, rest) = parameters.split_at(2);
	Ok((read_u16_le(number), rest))
}

/// The options for the [Factory Reset]'''),
(V,'''		let packet = self.read_raw_instruction_timeout(timeout)?;
		let packet = packet.try_into()?;
		Ok(packet)
''','''		let packet = self.read_raw_instruction_timeout(timeout)?;
		Instruction::try_from(packet).map_err(ReadError::from)
''','all'),
# packets
(P,'''		if self.instruction_id() == crate::instructions::instruction_id::STATUS {
			Some(StatusPacket { packet: self })
		} else {
			None
		}
''','''		self.is_status().then_some(StatusPacket { packet: self })
'''),
(P,'''		if self.instruction_id() != crate::instructions::instruction_id::STATUS {
			Some(InstructionPacket { packet: self })
		} else {
			None
		}
	}
''','''		match self.as_status() {
			Some(_) => None,
			None => Some(InstructionPacket { packet: self }),
		}
	}

	fn is_status(self) -> bool {
		matches!(self.instruction_id(), crate::instructions::instruction_id::STATUS)
	}
'''),
(P,'''		&self.packet.data[super::HEADER_SIZE + 2..]
''','''		let (_, parameters) = self.packet.data.split_at(super::HEADER_SIZE + 2);
		parameters
'''),
(P,'''		self.error() & 0x80 != 0
''','''		(self.error() as i8) < 0
'''),
(P,'''		self.error() & !0x80
''','''		self.error() % 128
'''),
# sync read: the motors that did not answer yet
(R,'''			motor_ids,
			index: 0,
''','''			motor_ids,
''','all'),
(R,'''			motor_ids: &'a [u8],
			index: usize,
''','''			motor_ids: &'a [u8],
''','all'),
(R,'''			.field("index", &self.index)
''','','all'),
(R,'''		self.motor_ids.len() - self.index
''','''		self.motor_ids.len()
''','all'),
(R,'''		let motor_id = self.motor_ids.get(self.index)?;
		self.index += 1;
		Some(*motor_id)
''','''		match self.motor_ids {
			[] => None,
			[motor_id, rest @ ..] => {
				self.motor_ids = rest;
				Some(*motor_id)
			},
		}
''','all'),
# sync write: the part of the buffer that is not written yet
(W,'''			for (i, command) in data.enumerate() {
				let command = command.as_ref();
				assert_eq!(command.data.as_ref().len(), count as usize);
				let buffer = &mut buffer[4 + i * stride..][..stride];
				buffer[0] = command.motor_id;
				buffer[1..].copy_from_slice(command.data.as_ref());
			}
''','''			let mut rest = &mut buffer[4..];
			for command in data {
				let SyncWriteData { motor_id, data } = command.as_ref();
				let data = data.as_ref();
				assert!(data.len() == usize::from(count), "wrong amount of data for motor {motor_id}");
				let (buffer, tail) = rest.split_at_mut(stride);
				buffer[0] = *motor_id;
				buffer[1..].copy_from_slice(data);
				rest = tail;
			}
'''),
(W,'''			for (i, command) in data.enumerate() {
				let command = command.as_ref();
				let buffer = &mut buffer[4 + i * stride..][..stride];
				buffer[0] = command.motor_id;
				command.data.encode(&mut buffer[1..])?;
			}
			Ok(())
''','''			let mut offset = 4;
			data.into_iter().try_for_each(|command| {
				let command = command.as_ref();
				buffer[offset] = command.motor_id;
				let end = offset + stride;
				let result = command.data.encode(&mut buffer[offset + 1..end]);
				offset = end;
				result
			})
'''),
# errors
(E,'''		if actual == expected {
			Ok(())
		} else {
			Err(Self {
				actual,
				expected: ExpectedCount::Exact(expected),
			})
		}
''','''		let expected = ExpectedCount::Exact(expected);
		Self::check_range(actual, expected)
'''),
(E,'''		if actual <= max {
			Ok(())
		} else {
			Err(Self {
				actual,
				expected: ExpectedCount::Max(max),
			})
		}
''','''		Self::check_range(actual, ExpectedCount::Max(max))
'''),
(E,'''		if actual >= min {
			Ok(())
		} else {
			Err(Self {
				actual,
				expected: ExpectedCount::Min(min),
			})
		}
	}
''','''		Self::check_range(actual, ExpectedCount::Min(min))
	}

	fn check_range(actual: usize, expected: ExpectedCount) -> Result<(), Self> {
		let good = match expected {
			ExpectedCount::Exact(x) => actual == x,
			ExpectedCount::Max(x) => actual <= x,
			ExpectedCount::Min(x) => x <= actual,
		};
		good.then_some(()).ok_or(Self { actual, expected })
	}
'''),
# bus: sending in two parts
(B,'''		// Throw away old data in the read buffer and the kernel read buffer.
''','''		self.transmit(checksum_index + 2)
	}

	/// Send the message at the start of the write buffer.
	fn transmit(&mut self, len: usize) -> Result<(), WriteError<SerialPort::Error>> {
		// Throw away old data in the read buffer and the kernel read buffer.
'''),
(B,'''		let stuffed_message = &buffer[..checksum_index + 2];
''','''		let stuffed_message = &self.write_buffer.as_ref()[..len];
'''),
# bus: the length of a complete message
(B,'''			if self.read_len > HEADER_SIZE {
				let read_buffer = &self.read_buffer.as_mut()[..self.read_len];
				let body_len = endian::read_u16_le(&read_buffer[5..]) as usize;

				// The body must contain at least an instruction ID and a checksum.
				if body_len < 3 {
					self.consume_read_bytes(HEADER_SIZE);
					return Err(crate::InvalidMessage::InvalidParameterCount(crate::InvalidParameterCount {
						actual: body_len,
						expected: crate::ExpectedCount::Min(3),
					})
					.into());
				}

				// Check if the read buffer is large enough for the entire message.
				crate::error::BufferTooSmallError::check(HEADER_SIZE + body_len, self.read_buffer.as_mut().len()).inspect_err(|_| {
					self.consume_read_bytes(HEADER_SIZE);
				})?;

				if self.read_len >= HEADER_SIZE + body_len {
					break HEADER_SIZE + body_len;
				}
			}
''','''			if let Some(message_len) = self.announced_len()? {
				if message_len <= self.read_len {
					break message_len;
				}
			}
'''),
(B,'''	/// Remove leading garbage data from the read buffer.
''','''	/// The length of the message at the start of the read buffer, if its length field has been received.
	fn announced_len(&mut self) -> Result<Option<usize>, ReadError<SerialPort::Error>> {
		if self.read_len <= HEADER_SIZE {
			return Ok(None);
		}
		let read_buffer = self.read_buffer.as_ref();
		let body_len = usize::from(endian::read_u16_le(&read_buffer[5..7]));
		let message_len = HEADER_SIZE + body_len;
		let result = if body_len < 3 {
			// The body must contain at least an instruction ID and a checksum.
			Err(ReadError::from(crate::InvalidParameterCount {
				actual: body_len,
				expected: crate::ExpectedCount::Min(3),
			}))
		} else {
			// The read buffer must be large enough for the entire message.
			crate::error::BufferTooSmallError::check(message_len, read_buffer.len())
				.map(|()| Some(message_len))
				.map_err(Into::into)
		};
		if result.is_err() {
			self.consume_read_bytes(HEADER_SIZE);
		}
		result
	}

	/// Remove leading garbage data from the read buffer.
'''),
(B,'''	let secs = bits / baud_rate;
	let subsec_bits = bits % baud_rate;
	let nanos = (subsec_bits * 1_000_000_000).div_ceil(baud_rate);
	Duration::new(secs, nanos as u32)
''','''	let nanos = ((bits % baud_rate) * 1_000_000_000).div_ceil(baud_rate);
	Duration::from_secs(bits / baud_rate) + Duration::from_nanos(nanos)
'''),
# arrays
(D,'''		for i in 0..N {
			let value = T::decode(&buffer[i * encoded_size..][..encoded_size])?;
''','''		let mut rest = buffer;
		for _ in 0..N {
			let (element, tail) = rest.split_at(encoded_size);
			rest = tail;
			let value = T::decode(element)?;
'''),
(D,'''		for (i, value) in self.iter().enumerate() {
			value.encode(&mut buffer[i * encoded_size..][..encoded_size])?;
		}
		Ok(())
''','''		let mut start = 0;
		self.iter().try_for_each(|value| {
			let end = start + encoded_size;
			value.encode(&mut buffer[start..end])?;
			start = end;
			Ok(())
		})
'''),
(I,'''	if motor_id == packet_id::BROADCAST {
		Ok(crate::Response {
			motor_id: packet_id::BROADCAST,
			alert: false,
			data: (),
		})
	} else {
		let response = client.read_status_response(0)?;
		crate::InvalidPacketId::check(response.packet_id(), motor_id)?;
		Ok(response.try_into()?)
	}
''','''	match motor_id {
		packet_id::BROADCAST => Ok(crate::Response {
			motor_id,
			alert: Default::default(),
			data: (),
		}),
		_ => {
			let response = client.read_status_response(0)?;
			crate::InvalidPacketId::check(response.packet_id(), motor_id)
				.map_err(ReadError::from)
				.and_then(|()| response.try_into().map_err(ReadError::from))
		},
	}
'''),
]
