# Iterators that shrink their list instead of counting, let-else, framing in a helper, other arithmetic, other encoders.
B='src/bus/mod.rs'
C='src/client.rs'
P='src/instructions/ping.rs'
K='src/instructions/bulk_read.rs'
D='src/bus/data.rs'
N='src/bus/endian.rs'
S='src/serial_port/serial2.rs'
U='src/bus/bytestuff.rs'
EDITS=[
(K,'''			bulk_read_data: reads,
			index: 0,
''','''			remaining: reads,
''','all'),
(K,'''	bulk_read_data: &'a [BulkReadData],
	index: usize,
''','''	/// The reads that have not been answered yet.
	remaining: &'a [BulkReadData],
'''),
(K,'''			.field("bulk_read_data", &self.bulk_read_data)
			.field("index", &self.index)
''','''			.field("remaining", &self.remaining)
'''),
(K,'''		for data in &self.bulk_read_data[self.index..] {
			self.client.read_status_response(data.count).ok();
		}
''','''		while let Some(data) = self.pop_bulk_read_data() {
			let _ = self.client.read_status_response(data.count);
		}
'''),
(K,'''		self.bulk_read_data.len() - self.index
''','''		self.remaining.len()
'''),
(K,'''		let data = self.bulk_read_data.get(self.index)?;
		self.index += 1;
		Some(*data)
''','''		let (&first, rest) = self.remaining.split_first()?;
		self.remaining = rest;
		Some(first)
'''),
(K,'''impl<T, SerialPort, Buffer> BulkReadBytes<'_, T, SerialPort, Buffer>
where
	SerialPort''','''impl<T, SerialPort, Buffer> BulkReadBytes<'_, T, SerialPort, Buffer>
where
	SerialPort'''),
(K,'''	for i in 0..reads.len() {
		for j in i + 1..reads.len() {
			if reads[i].motor_id == reads[j].motor_id {
				panic!(
					"bulk_read_cb: motor ID {} used multiple at index {} and {}",
					reads[i].motor_id, i, j
				)
			}
		}
	}
''','''	for (j, read) in reads.iter().enumerate() {
		if let Some(i) = reads[..j].iter().position(|other| other.motor_id == read.motor_id) {
			panic!("bulk_read_cb: motor ID {} used multiple at index {} and {}", read.motor_id, i, j)
		}
	}
'''),
(K,'''		for (i, read) in reads.iter().enumerate() {
			let buffer = &mut buffer[i * 5..][..5];
			write_u8_le(&mut buffer[0..], read.motor_id);
			write_u16_le(&mut buffer[1..], read.address);
			write_u16_le(&mut buffer[3..], read.count);
		}
''','''		for (read, buffer) in reads.iter().zip(buffer.chunks_exact_mut(5)) {
			let (id, range) = buffer.split_at_mut(1);
			write_u8_le(id, read.motor_id);
			write_u16_le(range, read.address);
			write_u16_le(&mut range[2..], read.count);
		}
'''),
(C,'''		let status = match packet.as_status() {
			Some(status) => status,
			None => {
				return Err(crate::InvalidInstruction {
					actual: packet.instruction_id(),
					expected: instruction_id::STATUS,
				}
				.into())
			},
		};

		crate::MotorError::check(status.error())?;
		Ok(status)
''','''		let actual = packet.instruction_id();
		let Some(status) = packet.as_status() else {
			let expected = instruction_id::STATUS;
			return Err(crate::InvalidInstruction { actual, expected }.into());
		};
		match crate::MotorError::check(status.error()) {
			Ok(()) => Ok(status),
			Err(e) => Err(e.into()),
		}
'''),
(C,'''		let message_size = crate::bus::StatusPacket::message_len(expected_parameters as usize) as u32;
		let timeout = crate::bus::message_transfer_time(message_size, self.bus.baud_rate) + Duration::from_millis(34);
		self.read_status_response_timeout(timeout)
''','''		const MARGIN: Duration = Duration::from_millis(34);
		let message_size = crate::bus::StatusPacket::message_len(expected_parameters.into());
		let transfer_time = crate::bus::message_transfer_time(message_size as u32, self.baud_rate());
		self.read_status_response_timeout(MARGIN + transfer_time)
'''),
(P,'''		let response = self.next_response();
		match response {
			Ok(response) => Some(Ok(response)),
			Err(ReadError::Io(e)) if SerialPort::is_timeout_error(&e) => {
				trace!("Ping response timed out.");
				None
			},
			Err(ReadError::Io(e)) => {
				// Do not keep reading from a broken serial port.
				self.done = true;
				Some(Err(ReadError::Io(e)))
			},
			Err(e) => Some(Err(e)),
		}
''','''		let response = self.next_response();
		if let Err(ReadError::Io(e)) = &response {
			if SerialPort::is_timeout_error(e) {
				trace!("Ping response timed out.");
				return None;
			}
			// Do not keep reading from a broken serial port.
			self.done = true;
		}
		Some(response)
'''),
(P,'''		while let Some(response) = self.next() {
			// If the read buffer is too small for any message, we would get this error forever.
			if let Err(ReadError::BufferFull(_)) = response {
				break;
			}
		}
''','''		loop {
			match self.scan_next() {
				// If the read buffer is too small for any message, we would get this error forever.
				None | Some(Err(ReadError::BufferFull(_))) => return,
				Some(_) => continue,
			}
		}
'''),
(P,'''		let response_time = crate::bus::message_transfer_time(14, self.client.baud_rate());
		let timeout = response_time * 253 + Duration::from_millis(34);

		let response = self.client.read_status_response_timeout(timeout)?;
		Ok(response.try_into()?)
''','''		let response_time = crate::bus::message_transfer_time(14, self.client.baud_rate());
		let timeout = Duration::from_millis(34) + response_time * 253;
		self.client
			.read_status_response_timeout(timeout)
			.and_then(|status| status.try_into().map_err(ReadError::from))
'''),
(N,'''	let low = buffer[0] as u16;
	let high = buffer[1] as u16;
	low | (high << 8)
''','''	u16::from(buffer[1]) * 256 + u16::from(buffer[0])
'''),
(N,'''	buffer[0] = (value & 0xFF) as u8;
	buffer[1] = ((value >> 8) & 0xFF) as u8;
''','''	let [low, high] = value.to_le_bytes();
	buffer[0] = low;
	buffer[1] = high;
'''),
(B,'''	let baud_rate = u64::from(baud_rate);
	let bits = u64::from(message_size) * 10; // each byte is 1 start bit, 8 data bits and 1 stop bit.
	let secs = bits / baud_rate;
	let subsec_bits = bits % baud_rate;
	let nanos = (subsec_bits * 1_000_000_000).div_ceil(baud_rate);
	Duration::new(secs, nanos as u32)
''','''	const NANOS_PER_SEC: u64 = 1_000_000_000;
	let baud_rate = u64::from(baud_rate);
	let bits = u64::from(message_size) * 10; // each byte is 1 start bit, 8 data bits and 1 stop bit.
	let (secs, subsec_bits) = (bits / baud_rate, bits % baud_rate);
	let nanos = (subsec_bits * NANOS_PER_SEC + (baud_rate - 1)) / baud_rate;
	Duration::from_secs(secs) + Duration::from_nanos(nanos)
'''),
(D,'''		for (i, value) in self.iter().enumerate() {
			value.encode(&mut buffer[i * encoded_size..][..encoded_size])?;
		}
		Ok(())
''','''		let mut rest = buffer;
		for value in self {
			let (head, tail) = rest.split_at_mut(encoded_size);
			value.encode(head)?;
			rest = tail;
		}
		Ok(())
'''),
(D,'''		let encoded_size = T::ENCODED_SIZE as usize;
		crate::InvalidParameterCount::check(buffer.len(), encoded_size * N)?;
		let mut output = ArrayInitializer::new();
		for i in 0..N {
			let value = T::decode(&buffer[i * encoded_size..][..encoded_size])?;
''','''		let encoded_size = T::ENCODED_SIZE as usize;
		crate::InvalidParameterCount::check(buffer.len(), encoded_size * N)?;
		let mut output = ArrayInitializer::new();
		let mut rest = buffer;
		for _ in 0..N {
			let (head, tail) = rest.split_at(encoded_size);
			let value = T::decode(head)?;
			rest = tail;
'''),
(S,'''		let timeout = deadline
			.checked_duration_since(Instant::now())
			.ok_or(std::io::ErrorKind::TimedOut)?;
		self.set_read_timeout(timeout)?;
		serial2::SerialPort::read(self, buffer)
''','''		let now = Instant::now();
		match deadline.checked_duration_since(now) {
			None => Err(std::io::Error::from(std::io::ErrorKind::TimedOut)),
			Some(timeout) => {
				self.set_read_timeout(timeout)?;
				serial2::SerialPort::read(self, buffer)
			},
		}
'''),
(S,'''		error.kind() == std::io::ErrorKind::TimedOut
''','''		matches!(error.kind(), std::io::ErrorKind::TimedOut)
'''),
(B,'''		let stuffed_message_len = loop {
			self.remove_garbage();

			// The call to remove_garbage() removes all leading bytes that don't match a packet header.
			// So if there's enough bytes left, it's a packet header.
			if self.read_len > HEADER_SIZE {
				let read_buffer = &self.read_buffer.as_mut()[..self.read_len];
				let body_len = endian::read_u16_le(&read_buffer[5..]) as usize;

				// The body must contain at least an instruction ID and a checksum.
				if body_len < 3 {''','''		let stuffed_message_len = loop {
			self.remove_garbage();

			// The call to remove_garbage() removes all leading bytes that don't match a packet header.
			// So if there's enough bytes left, it's a packet header.
			if let Some(body_len) = self.body_len() {
				// The body must contain at least an instruction ID and a checksum.
				if body_len < 3 {'''),
(B,'''	/// Remove leading garbage data from the read buffer.
	fn remove_garbage''','''	/// The value of the length field of the message at the start of the read buffer.
	fn body_len(&self) -> Option<usize> {
		let read_buffer = self.read_buffer.as_ref().get(..self.read_len)?;
		if read_buffer.len() <= HEADER_SIZE {
			return None;
		}
		Some(usize::from(endian::read_u16_le(&read_buffer[5..7])))
	}

	/// Remove leading garbage data from the read buffer.
	fn remove_garbage'''),
]
