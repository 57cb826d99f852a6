# Private fields renamed and reordered, more helper methods on the bus, error construction moved, macro for encoders, generic helpers.
B='src/bus/mod.rs'
EDITS=[
(B,'self.read_len','self.filled',1),
(B,'''	/// The total number of valid bytes in the read buffer.
	pub(crate) read_len: usize,

	/// The number of leading bytes in the read buffer that have already been used.
	pub(crate) used_bytes: usize,

	/// The buffer for outgoing messages.
	pub(crate) write_buffer: Buffer,
''','''	/// The buffer for outgoing messages.
	pub(crate) write_buffer: Buffer,

	/// The number of leading bytes in the read buffer that have already been used.
	pub(crate) used: usize,

	/// The total number of valid bytes in the read buffer.
	pub(crate) filled: usize,
'''),
(B,'''			read_len: 0,
			used_bytes: 0,
			write_buffer,
''','''			write_buffer,
			used: 0,
			filled: 0,
'''),
(B,'self.used_bytes','self.used',1),
(B,'''	/// Read a raw packet from the bus with the given deadline.
	pub fn read_packet_deadline(&mut self, deadline: SerialPort::Instant) -> Result<Packet<'_>, ReadError<SerialPort::Error>> {
		// Check that the read buffer is large enough to hold atleast a instruction packet with 0 parameters.
		crate::error::BufferTooSmallError::check(HEADER_SIZE + 3, self.read_buffer.as_mut().len())?;

		let stuffed_message_len = loop {''','''	/// Read a raw packet from the bus with the given deadline.
	pub fn read_packet_deadline(&mut self, deadline: SerialPort::Instant) -> Result<Packet<'_>, ReadError<SerialPort::Error>> {
		// Check that the read buffer is large enough to hold atleast a instruction packet with 0 parameters.
		crate::error::BufferTooSmallError::check(InstructionPacket::message_len(0), self.read_buffer.as_ref().len())?;
		let len = self.receive_message(&deadline)?;
		let len = self.verify_checksum(len)?;
		let parameter_count = self.unstuff_body(len);
		self.make_packet(parameter_count)
	}

	/// Receive a message, and return its (stuffed) length.
	///
	/// The message starts at the start of the read buffer.
	fn receive_message(&mut self, deadline: &SerialPort::Instant) -> Result<usize, ReadError<SerialPort::Error>> {
		let len = loop {'''),
(B,'''					return Err(crate::InvalidMessage::InvalidParameterCount(crate::InvalidParameterCount {
						actual: body_len,
						expected: crate::ExpectedCount::Min(3),
					})
					.into());
''','''					return Err(too_few(body_len, 3));
'''),
(B,'''				.read(&mut self.read_buffer.as_mut()[self.filled..], &deadline)
				.map_err(ReadError::Io)?;

			self.filled += new_data;
		};

		let buffer = self.read_buffer.as_mut();
		let parameters_end = stuffed_message_len - 2;
		trace!("read packet: {:02X?}", &buffer[..parameters_end]);

		let checksum_message''','''				.read(&mut self.read_buffer.as_mut()[self.filled..], deadline)
				.map_err(ReadError::Io)?;

			self.filled += new_data;
		};
		Ok(len)
	}

	/// Check the checksum of the message and return the length without checksum.
	fn verify_checksum(&mut self, stuffed_message_len: usize) -> Result<usize, crate::InvalidChecksum> {
		let buffer = self.read_buffer.as_ref();
		let parameters_end = stuffed_message_len - 2;
		trace!("read packet: {:02X?}", &buffer[..parameters_end]);

		let checksum_message'''),
(B,'''			self.consume_read_bytes(stuffed_message_len);
			return Err(crate::InvalidChecksum {
				message: checksum_message,
				computed: checksum_computed,
			}
			.into());
		}
''','''			self.consume_read_bytes(stuffed_message_len);
			return Err(crate::InvalidChecksum {
				message: checksum_message,
				computed: checksum_computed,
			});
		}
'''),
(B,'''		self.used += stuffed_message_len;

		// Remove byte-stuffing from the everything from instruction ID to the parameters.
		let parameter_count = bytestuff::unstuff_inplace(&mut buffer[HEADER_SIZE..parameters_end]);

		// Wrap the data in a `Packet`.
''','''		self.used += stuffed_message_len;
		Ok(parameters_end)
	}

	fn unstuff_body(&mut self, parameters_end: usize) -> usize {
		// Remove byte-stuffing from the everything from instruction ID to the parameters.
		let body = &mut self.read_buffer.as_mut()[HEADER_SIZE..parameters_end];
		bytestuff::unstuff_inplace(body)
	}

	fn make_packet(&self, parameter_count: usize) -> Result<Packet<'_>, ReadError<SerialPort::Error>> {
		// Wrap the data in a `Packet`.
'''),
(B,'''		if packet.instruction_id() == crate::instructions::instruction_id::STATUS && parameter_count < 2 {
			return Err(crate::InvalidMessage::InvalidParameterCount(crate::InvalidParameterCount {
				actual: 0,
				expected: crate::ExpectedCount::Min(1),
			})
			.into());
		}

		Ok(packet)
''','''		let is_status = packet.as_status().is_some();
		if is_status && parameter_count == 1 {
			Err(too_few(0, 1))
		} else {
			Ok(packet)
		}
'''),
(B,'''/// Find the potential starting''','''/// Make the error for too few parameters.
#[cold]
fn too_few<E>(actual: usize, min: usize) -> ReadError<E> {
	crate::InvalidParameterCount {
		actual,
		expected: crate::ExpectedCount::Min(min),
	}
	.into()
}

/// Find the potential starting'''),
(B,'''		crate::error::BufferTooSmallError::check(StatusPacket::message_len(parameter_count), self.write_buffer.as_ref().len())?;
		self.write_packet(''','''		let required_size = StatusPacket::message_len(parameter_count);
		let total_size = self.write_buffer.as_ref().len();
		if required_size > total_size {
			return Err(WriteError::BufferTooSmall(crate::error::BufferTooSmallError { required_size, total_size }));
		}
		self.write_packet('''),
(B,'''		// Check if the buffer can hold the unstuffed message.
		crate::error::BufferTooSmallError::check(InstructionPacket::message_len(parameter_count), buffer.len())?;

		// Add the header, with a placeholder for the length field.
		buffer[4] = packet_id;
		buffer[5] = 0;
		buffer[6] = 0;
		buffer[7] = instruction_id;
		encode_parameters(&mut buffer[8..][..parameter_count])?;
''','''		// Check if the buffer can hold the unstuffed message.
		crate::error::BufferTooSmallError::check(InstructionPacket::message_len(parameter_count), buffer.len())?;

		// Add the header, with a placeholder for the length field.
		let (header, parameters) = buffer.split_at_mut(HEADER_SIZE + 1);
		header[4..].copy_from_slice(&[packet_id, 0, 0, instruction_id]);
		encode_parameters(&mut parameters[..parameter_count])?;
'''),
('src/instructions/bulk_read.rs','''		let response = self.client.read_status_response(count)?;
		// TODO: Allow a response from a motor later in the list (meaning we missed an earlier motor response).
		// We need to report a timeout or something for the missed motor though.
		crate::InvalidPacketId::check(response.packet_id(), motor_id)?;
		crate::InvalidParameterCount::check(response.parameters().len(), count.into())?;

		Ok(decode_status_packet_bytes(response)?)
	}
''','''		let response = self.read_response(motor_id, count)?;
		Ok(decode_status_packet_bytes(response)?)
	}

	fn read_response(&mut self, motor_id: u8, count: u16) -> Result<crate::bus::StatusPacket<'_>, ReadError<SerialPort::Error>> {
		// TODO: Allow a response from a motor later in the list (meaning we missed an earlier motor response).
		// We need to report a timeout or something for the missed motor though.
		let status = self.client.read_status_response(count)?;
		if status.packet_id() != motor_id {
			return Err(ReadError::InvalidMessage(
				crate::InvalidPacketId {
					actual: status.packet_id(),
					expected: Some(motor_id),
				}
				.into(),
			));
		}
		let len = status.parameters().len();
		if len == usize::from(count) {
			Ok(status)
		} else {
			crate::InvalidParameterCount::check(len, count.into())?;
			unreachable!()
		}
	}
'''),
('src/instructions/bulk_read.rs','''		Ok(BulkReadBytes {
			client: self,
			bulk_read_data: reads,
			index: 0,
			data: core::marker::PhantomData,
		})
''','''		Ok(BulkReadBytes::start(self, reads))
''',2),
('src/instructions/bulk_read.rs','''impl<T, SerialPort, Buffer> BulkReadBytes<'_, T, SerialPort, Buffer>
where''','''impl<'a, T, SerialPort, Buffer> BulkReadBytes<'a, T, SerialPort, Buffer>
where
	SerialPort: crate::SerialPort,
	Buffer: AsRef<[u8]> + AsMut<[u8]>,
{
	fn start(client: &'a mut Client<SerialPort, Buffer>, bulk_read_data: &'a [BulkReadData]) -> Self {
		Self {
			data: core::marker::PhantomData,
			index: 0,
			bulk_read_data,
			client,
		}
	}
}

impl<T, SerialPort, Buffer> BulkReadBytes<'_, T, SerialPort, Buffer>
where'''),
('src/instructions/sync_write.rs','''		let data = data.into_iter();
		let motors = data.len();
		let stride = 1 + usize::from(count);
		let parameter_count = 4 + motors * stride;
		self.write_instruction(packet_id::BROADCAST, instruction_id::SYNC_WRITE, parameter_count, |buffer| {
			write_u16_le(&mut buffer[0..], address);
			write_u16_le(&mut buffer[2..], count);
			for (i, command) in data.enumerate() {
				let command = command.as_ref();
				assert_eq!(command.data.as_ref().len(), count as usize);
				let buffer = &mut buffer[4 + i * stride..][..stride];
				buffer[0] = command.motor_id;
				buffer[1..].copy_from_slice(command.data.as_ref());
			}
			Ok(())
		})
	}
''','''		self.write_sync(address, count, data.into_iter(), |command: &Data, buffer| {
			let command = command.as_ref();
			assert_eq!(command.data.as_ref().len(), count as usize);
			buffer[0] = command.motor_id;
			buffer[1..].copy_from_slice(command.data.as_ref());
			Ok(())
		})
	}

	fn write_sync<Item>(
		&mut self,
		address: u16,
		count: u16,
		data: impl ExactSizeIterator<Item = Item>,
		encode: impl Fn(&Item, &mut [u8]) -> Result<(), crate::error::BufferTooSmallError>,
	) -> Result<(), WriteError<SerialPort::Error>> {
		let stride = usize::from(count) + 1;
		let parameter_count = 4 + stride * data.len();
		self.write_instruction(packet_id::BROADCAST, instruction_id::SYNC_WRITE, parameter_count, |buffer| {
			write_u16_le(&mut buffer[0..], address);
			write_u16_le(&mut buffer[2..], count);
			let mut start = 4;
			for command in data {
				encode(&command, &mut buffer[start..start + stride])?;
				start += stride;
			}
			Ok(())
		})
	}
'''),
('src/instructions/sync_write.rs','''		let data = data.into_iter();
		let count = usize::from(T::ENCODED_SIZE);
		let motors = data.len();
		let stride = 1 + count;
		let parameter_count = 4 + motors * stride;
		self.write_instruction(packet_id::BROADCAST, instruction_id::SYNC_WRITE, parameter_count, |buffer| {
			write_u16_le(&mut buffer[0..], address);
			write_u16_le(&mut buffer[2..], count as u16);
			for (i, command) in data.enumerate() {
				let command = command.as_ref();
				let buffer = &mut buffer[4 + i * stride..][..stride];
				buffer[0] = command.motor_id;
				command.data.encode(&mut buffer[1..])?;
			}
			Ok(())
		})
''','''		self.write_sync(address, T::ENCODED_SIZE, data.into_iter(), |command: &Data, buffer| {
			let command = command.as_ref();
			let (id, data) = buffer.split_first_mut().unwrap();
			*id = command.motor_id;
			command.data.encode(data)
		})
'''),
('src/instructions/sync_read.rs','''		let count = T::ENCODED_SIZE;
		self.write_instruction(packet_id::BROADCAST, instruction_id::SYNC_READ, 4 + motor_ids.len(), |buffer| {
			write_u16_le(&mut buffer[0..], address);
			write_u16_le(&mut buffer[2..], count);
			buffer[4..].copy_from_slice(motor_ids);
			Ok(())
		})?;
''','''		self.write_instruction(packet_id::BROADCAST, instruction_id::SYNC_READ, 4 + motor_ids.len(), |buffer| {
			for (i, id) in motor_ids.iter().enumerate() {
				buffer[4 + i] = *id;
			}
			write_u16_le(&mut buffer[2..4], T::ENCODED_SIZE);
			write_u16_le(&mut buffer[..2], address);
			Ok(())
		})?;
'''),
('src/instructions/sync_read.rs','''		let motor_id = self.motor_ids.get(self.index)?;
		self.index += 1;
		Some(*motor_id)
''','''		let motor_id = self.motor_ids.iter().copied().nth(self.index)?;
		self.index += 1;
		Some(motor_id)
''',2),
('src/instructions/mod.rs','''	if motor_id == packet_id::BROADCAST {
		Ok(crate::Response {
			motor_id: packet_id::BROADCAST,
			alert: false,
			data: (),
		})
	} else {
		let response = client.read_status_response(0)?;
		crate::InvalidPacketId::check(response.packet_id(), motor_id)?;
		Ok(response.try_into()?)
	}
''','''	match motor_id {
		packet_id::BROADCAST => Ok(crate::Response {
			motor_id,
			alert: Default::default(),
			data: Default::default(),
		}),
		_ => {
			let response = client.read_status_response(u16::MIN)?;
			crate::InvalidPacketId::check(response.packet_id(), motor_id)?;
			let response = response.try_into()?;
			Ok(response)
		},
	}
'''),
('src/instructions/ping.rs','''		let response_time = crate::bus::message_transfer_time(14, self.client.baud_rate());
		let timeout = response_time * 253 + Duration::from_millis(34);

		let response = self.client.read_status_response_timeout(timeout)?;
		Ok(response.try_into()?)
''','''		const MAX_MOTORS: u32 = 253;
		let message_len = StatusPacket::message_len(3) as u32;
		let response_time = crate::bus::message_transfer_time(message_len, self.client.baud_rate());
		let timeout = Duration::from_millis(34) + MAX_MOTORS * response_time;
		self.client
			.read_status_response_timeout(timeout)
			.and_then(|response| Response::try_from(response).map_err(ReadError::from))
'''),
('src/device.rs','''		let deadline = SerialPort::make_deadline(self.serial_port(), timeout);
''','''		let deadline = self.bus.serial_port.make_deadline(timeout);
'''),
('src/device.rs','''		let packet: Instruction<&[u8]> = packet.try_into()?;
		let Instruction { id, instruction } = packet;
''','''		let Instruction { id, instruction } = Instruction::<&[u8]>::try_from(packet)?;
'''),
('src/device.rs','''			instruction_id::WRITE => {
				InvalidParameterCount::check_min(parameters.len(), 2)?;
				Instructions::Write {
					address: read_u16_le(&parameters[..2]),
					parameters: &parameters[2..],
				}
			},
			instruction_id::REG_WRITE => {
				InvalidParameterCount::check_min(parameters.len(), 2)?;
				Instructions::RegWrite {
					address: read_u16_le(&parameters[..2]),
					parameters: &parameters[2..],
				}
			},
''','''			instruction @ (instruction_id::WRITE | instruction_id::REG_WRITE) => {
				InvalidParameterCount::check_min(parameters.len(), 2)?;
				let address = read_u16_le(parameters);
				let parameters = &parameters[2..];
				if instruction == instruction_id::WRITE {
					Instructions::Write { address, parameters }
				} else {
					Instructions::RegWrite { address, parameters }
				}
			},
'''),
]
