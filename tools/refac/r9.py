V='src/device.rs'
C='src/client.rs'
B='src/bus/mod.rs'
K='src/instructions/bulk_read.rs'
W='src/instructions/bulk_write.rs'
R='src/instructions/read.rs'
S='src/serial_port/serial2.rs'
P='src/instructions/ping.rs'
EDITS=[
(V,'''		let packet: Instruction<&[u8]> = packet.try_into()?;
		let Instruction { id, instruction } = packet;
		let instruction = match instruction {
''','''		fn copied(data: &[u8]) -> alloc::vec::Vec<u8> {
			let mut copy = alloc::vec::Vec::with_capacity(data.len());
			copy.extend_from_slice(data);
			copy
		}
		let Instruction { id, instruction } = Instruction::<&[u8]>::try_from(packet)?;
		let instruction = match instruction {
'''),
(V,'''			Instructions::RegWrite { address, parameters } => Instructions::RegWrite {
				address,
				parameters: parameters.to_owned(),
			},
''','''			Instructions::RegWrite { address, parameters } => Instructions::RegWrite {
				parameters: alloc::vec::Vec::from(parameters),
				address,
			},
'''),
(V,'''				ids: ids.to_owned(),
''','''				ids: ids.iter().copied().collect(),
'''),
(V,'''			Instructions::BulkRead { parameters } => Instructions::BulkRead {
				parameters: parameters.to_owned(),
			},
''','''			Instructions::BulkRead { parameters } => Instructions::BulkRead {
				parameters: copied(parameters),
			},
'''),
(V,'''			Instructions::BulkWrite { parameters } => Instructions::BulkWrite {
				parameters: parameters.to_owned(),
			},
''','''			Instructions::BulkWrite { parameters } => Instructions::BulkWrite {
				parameters: parameters.into(),
			},
'''),
(V,'''				instruction,
				parameters: parameters.to_owned(),
''','''				instruction,
				parameters: parameters.iter().cloned().collect::<alloc::vec::Vec<u8>>(),
'''),
(V,'''			if let Some(instruction) = packet.as_instruction() {
				return Ok(instruction);
			}
''','''			match packet.as_instruction() {
				None => continue,
				Some(instruction) => break Ok(instruction),
			}
'''),
(C,'''		let response = self.read_status_response(expected_response_parameters)?;
		crate::error::InvalidPacketId::check(response.packet_id(), packet_id).map_err(crate::ReadError::from)?;
		Ok(response)
''','''		let response = self.read_status_response(expected_response_parameters)?;
		match crate::error::InvalidPacketId::check(response.packet_id(), packet_id) {
			Ok(()) => Ok(response),
			Err(e) => Err(TransferError::from(e)),
		}
'''),
(B,'''	fn remove_garbage(&mut self) {
		let read_buffer = self.read_buffer.as_mut();
		let garbage_len = find_header(&read_buffer[..self.read_len][self.used_bytes..]);
''','''	fn remove_garbage(&mut self) {
		let read_buffer = self.read_buffer.as_ref();
		let unused = &read_buffer[self.used_bytes..self.read_len];
		let garbage_len = if unused.starts_with(&HEADER_PREFIX) { 0 } else { find_header(unused) };
'''),
(B,'''		let buffer = self.write_buffer.as_mut();

		// Check if the buffer can hold the unstuffed message.
		crate::error::BufferTooSmallError::check(InstructionPacket::message_len(parameter_count), buffer.len())?;

		// Add the header, with a placeholder for the length field.
		buffer[4] = packet_id;
		buffer[5] = 0;
		buffer[6] = 0;
		buffer[7] = instruction_id;
		encode_parameters(&mut buffer[8..][..parameter_count])?;
''','''		let buffer = self.write_buffer.as_mut();
		let room = buffer.len();
		crate::error::BufferTooSmallError::check(InstructionPacket::message_len(parameter_count), room)?;

		// Add the header, with a placeholder for the length field.
		let (header, parameters) = buffer.split_at_mut(HEADER_SIZE + 1);
		header[4..].copy_from_slice(&[packet_id, 0, 0, instruction_id]);
		encode_parameters(&mut parameters[..parameter_count])?;
'''),
(B,'''		self.used_bytes += stuffed_message_len;

		// Remove byte-stuffing from the everything from instruction ID to the parameters.
		let parameter_count = bytestuff::unstuff_inplace(&mut buffer[HEADER_SIZE..parameters_end]);
''','''		// (The garbage before it is gone, so it starts at the start of the buffer.)
		self.used_bytes = stuffed_message_len;

		// Remove byte-stuffing from the everything from instruction ID to the parameters.
		let (_, body) = buffer[..parameters_end].split_at_mut(HEADER_SIZE);
		let parameter_count = bytestuff::unstuff_inplace(body);
'''),
(B,'''			let new_data = self
				.serial_port
				.read(&mut self.read_buffer.as_mut()[self.read_len..], &deadline)
				.map_err(ReadError::Io)?;

			self.read_len += new_data;
''','''			let free = self.read_buffer.as_mut().split_at_mut(self.read_len).1;
			match self.serial_port.read(free, &deadline) {
				Ok(new_data) => self.read_len += new_data,
				Err(e) => return Err(ReadError::Io(e)),
			}
'''),
(W,'''			parameter_count += 5 + data.len();
''','''			parameter_count += data.len();
			parameter_count += 5;
'''),
(S,'''		let mut settings = self.get_configuration()?;
		settings.set_baud_rate(baud_rate)?;
		self.set_configuration(&settings)?;
		Ok(())
''','''		let mut configuration = self.get_configuration()?;
		configuration
			.set_baud_rate(baud_rate)
			.and_then(|()| self.set_configuration(&configuration))
'''),
(S,'''		error.kind() == std::io::ErrorKind::TimedOut
''','''		matches!(error.kind(), std::io::ErrorKind::TimedOut)
'''),
(S,'''		let timeout = deadline
			.checked_duration_since(Instant::now())
			.ok_or(std::io::ErrorKind::TimedOut)?;
		self.set_read_timeout(timeout)?;
		serial2::SerialPort::read(self, buffer)
''','''		let now = Instant::now();
		if *deadline < now {
			return Err(std::io::ErrorKind::TimedOut.into());
		}
		self.set_read_timeout(*deadline - now)?;
		Self::read(self, buffer)
'''),
(P,'''		while let Some(response) = self.next() {
			// If the read buffer is too small for any message, we would get this error forever.
			if let Err(ReadError::BufferFull(_)) = response {
				break;
			}
		}
''','''		// If the read buffer is too small for any message, we would get this error forever.
		while !matches!(self.scan_next(), None | Some(Err(ReadError::BufferFull(_)))) {}
'''),
]
