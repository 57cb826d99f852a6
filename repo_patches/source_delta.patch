From 7e1e2a466e4df9a76d31d94a22e686e25bcb36e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 01/13] fix: reserve room for the whole value in reg_write()

---
 src/instructions/reg_write.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instructions/reg_write.rs b/src/instructions/reg_write.rs
index f6c4b09..c9146a4 100644
--- a/src/instructions/reg_write.rs
+++ b/src/instructions/reg_write.rs
@@ -36,7 +36,7 @@ where
 	/// You may specify [`crate::instructions::packet_id::BROADCAST`] as motor ID.
 	/// If you do, none of the devices will reply with a response, and this function will not wait for any.
 	pub fn reg_write<T: Data>(&mut self, motor_id: u8, address: u16, value: &T) -> Result<Response<()>, TransferError<SerialPort::Error>> {
-		self.write_instruction(motor_id, instruction_id::REG_WRITE, 2 + 1, |buffer| {
+		self.write_instruction(motor_id, instruction_id::REG_WRITE, 2 + T::ENCODED_SIZE as usize, |buffer| {
 			write_u16_le(&mut buffer[0..], address);
 			value.encode(&mut buffer[2..])
 		})?;
-- 
2.43.0


From 5098495b7299bee3ef6896cfa266ae72b2dbbda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 02/13] fix: use the encoded size of the value in sync_write()

---
 src/instructions/sync_write.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instructions/sync_write.rs b/src/instructions/sync_write.rs
index 6fe40c2..8f6a967 100644
--- a/src/instructions/sync_write.rs
+++ b/src/instructions/sync_write.rs
@@ -80,7 +80,7 @@ where
 		T: crate::bus::Data,
 	{
 		let data = data.into_iter();
-		let count = core::mem::size_of::<u8>();
+		let count = usize::from(T::ENCODED_SIZE);
 		let motors = data.len();
 		let stride = 1 + count;
 		let parameter_count = 4 + motors * stride;
-- 
2.43.0


From ae018d22f6bb002f2830728d8f1ccc7a34b190c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 03/13] fix: do not turn bulk write instructions into bulk
 reads in Device::read_owned()

---
 src/device.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/device.rs b/src/device.rs
index 19f18d3..a18d8e5 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -373,7 +373,7 @@ impl<'a> TryFrom<InstructionPacket<'a>> for Instruction<alloc::vec::Vec<u8>> {
 			Instructions::BulkRead { parameters } => Instructions::BulkRead {
 				parameters: parameters.to_owned(),
 			},
-			Instructions::BulkWrite { parameters } => Instructions::BulkRead {
+			Instructions::BulkWrite { parameters } => Instructions::BulkWrite {
 				parameters: parameters.to_owned(),
 			},
 			Instructions::Unknown { instruction, parameters } => Instructions::Unknown {
-- 
2.43.0


From eec5c14d7c1e1315058e3e97ebef07cbe783fe07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 04/13] fix: send the clear error option (0x02) instead of the
 clear multi-turn option in clear_error()

---
 src/instructions/clear.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instructions/clear.rs b/src/instructions/clear.rs
index 05201fe..fb22ca1 100644
--- a/src/instructions/clear.rs
+++ b/src/instructions/clear.rs
@@ -7,7 +7,7 @@ const CLEAR_REVOLUTION_COUNT: [u8; 5] = [0x01, 0x44, 0x58, 0x4C, 0x22];
 /// The parameters for the CLEAR command to clear the error state.
 ///
 /// This is only supported on some motors.
-const CLEAR_ERROR: [u8; 5] = [0x01, 0x45, 0x52, 0x43, 0x4C];
+const CLEAR_ERROR: [u8; 5] = [0x02, 0x45, 0x52, 0x43, 0x4C];
 
 impl<SerialPort, Buffer> Client<SerialPort, Buffer>
 where
-- 
2.43.0


From 1bcc0dc9d267a1296e10a5ed3fdc5cbee237ef29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 05/13] fix: report an error instead of panicking on messages
 without instruction ID or error field

---
 src/bus/mod.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/bus/mod.rs b/src/bus/mod.rs
index 19eec2b..2ef4a10 100644
--- a/src/bus/mod.rs
+++ b/src/bus/mod.rs
@@ -242,6 +242,16 @@ where
 				let read_buffer = &self.read_buffer.as_mut()[..self.read_len];
 				let body_len = endian::read_u16_le(&read_buffer[5..]) as usize;
 
+				// The body must contain at least an instruction ID and a checksum.
+				if body_len < 3 {
+					self.consume_read_bytes(HEADER_SIZE);
+					return Err(crate::InvalidMessage::InvalidParameterCount(crate::InvalidParameterCount {
+						actual: body_len,
+						expected: crate::ExpectedCount::Min(3),
+					})
+					.into());
+				}
+
 				// Check if the read buffer is large enough for the entire message.
 				crate::error::BufferTooSmallError::check(HEADER_SIZE + body_len, self.read_buffer.as_mut().len()).inspect_err(|_| {
 					self.consume_read_bytes(HEADER_SIZE);
@@ -286,8 +296,8 @@ where
 		let data = &self.read_buffer.as_ref()[..HEADER_SIZE + parameter_count];
 		let packet = packet::Packet { data };
 
-		// Ensure that status packets have an error field (included in parameter_count here).
-		if packet.instruction_id() == crate::instructions::instruction_id::STATUS && parameter_count < 1 {
+		// Ensure that status packets have an error field (the instruction ID and error field are included in parameter_count here).
+		if packet.instruction_id() == crate::instructions::instruction_id::STATUS && parameter_count < 2 {
 			return Err(crate::InvalidMessage::InvalidParameterCount(crate::InvalidParameterCount {
 				actual: 0,
 				expected: crate::ExpectedCount::Min(1),
-- 
2.43.0


From b17c548c7cca0e9aa5ef68e78b9cbe8ebc696395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 06/13] fix: apply and remove byte stuffing after runs of more
 than two 0xFF bytes

---
 src/bus/bytestuff.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bus/bytestuff.rs b/src/bus/bytestuff.rs
index 3033ff3..8b31c41 100644
--- a/src/bus/bytestuff.rs
+++ b/src/bus/bytestuff.rs
@@ -18,6 +18,9 @@ pub fn unstuff_inplace(data: &mut [u8]) -> usize {
 	for i in 0..data.len() {
 		if data[i] == PATTERN[state] {
 			state += 1;
+		} else if data[i] == PATTERN[0] {
+			// Three or more 0xFF bytes in a row still end with two of them.
+			state = if state == 2 { 2 } else { 1 };
 		} else {
 			state = 0;
 		}
@@ -39,6 +42,9 @@ pub fn stuffing_required(data: &[u8]) -> usize {
 	for &byte in data {
 		if byte == PATTERN[state] {
 			state += 1;
+		} else if state == 2 && byte == PATTERN[0] {
+			// Three or more 0xFF bytes in a row still end with two of them.
+			state = 2;
 		} else {
 			state = 0;
 		}
-- 
2.43.0


From 4a5c8a78260aaa37384a79ab1b8d488ad1c4b43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 07/13] fix: report BufferTooSmall instead of panicking when
 stuffing leaves no room for the checksum

---
 src/bus/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bus/mod.rs b/src/bus/mod.rs
index 2ef4a10..4170b44 100644
--- a/src/bus/mod.rs
+++ b/src/bus/mod.rs
@@ -205,7 +205,9 @@ where
 		// Perform bitstuffing on the body.
 		// The header never needs stuffing.
 		// However, strictly following the spec, the instruction ID might need stuffing.
-		let stuffed_body_len = bytestuff::stuff_inplace(&mut buffer[HEADER_SIZE..], 1 + parameter_count)?;
+		// Leave room in the buffer for the checksum.
+		let body_end = buffer.len() - 2;
+		let stuffed_body_len = bytestuff::stuff_inplace(&mut buffer[HEADER_SIZE..body_end], 1 + parameter_count)?;
 
 		endian::write_u16_le(&mut buffer[5..], stuffed_body_len as u16 + 2);
 
-- 
2.43.0


From a3b8eb4ccb87df4e859492ad21b4b89462cd211a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 08/13] fix: do not truncate the length field of oversized
 messages

---
 src/bus/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bus/mod.rs b/src/bus/mod.rs
index 4170b44..b320c4b 100644
--- a/src/bus/mod.rs
+++ b/src/bus/mod.rs
@@ -209,6 +209,8 @@ where
 		let body_end = buffer.len() - 2;
 		let stuffed_body_len = bytestuff::stuff_inplace(&mut buffer[HEADER_SIZE..body_end], 1 + parameter_count)?;
 
+		// Check that the length of the stuffed message can be represented in the length field.
+		crate::error::BufferTooSmallError::check(stuffed_body_len + 2, u16::MAX.into())?;
 		endian::write_u16_le(&mut buffer[5..], stuffed_body_len as u16 + 2);
 
 		// Add checksum.
-- 
2.43.0


From 8da4130b0f2916935889c6a4f5662bce7a841098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 09/13] fix: do not drop the elements of decoded arrays twice

---
 src/bus/data.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bus/data.rs b/src/bus/data.rs
index 4875a70..ab17415 100644
--- a/src/bus/data.rs
+++ b/src/bus/data.rs
@@ -143,7 +143,9 @@ impl<T: Sized, const N: usize> ArrayInitializer<T, N> {
 		debug_assert!(self.initialized == N);
 		// SAFETY: The caller must guarantee that `self.data` is fully initialized,
 		// if they did, reading it as `[T; N]` is sound.
-		core::ptr::read(self.data.as_ptr().cast())
+		// Do not run the destructor of `self`, because it would drop the returned values.
+		let this = core::mem::ManuallyDrop::new(self);
+		core::ptr::read(this.data.as_ptr().cast())
 	}
 }
 
-- 
2.43.0


From bc538940827367efae056e5ae361d26c7e698595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 10/13] fix: report an error instead of panicking when decoding
 an array from a buffer of the wrong size

---
 src/bus/data.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bus/data.rs b/src/bus/data.rs
index ab17415..4be67d6 100644
--- a/src/bus/data.rs
+++ b/src/bus/data.rs
@@ -95,6 +95,7 @@ impl<T: Data, const N: usize> Data for [T; N] {
 
 	fn decode(buffer: &[u8]) -> Result<Self, crate::InvalidMessage> {
 		let encoded_size = T::ENCODED_SIZE as usize;
+		crate::InvalidParameterCount::check(buffer.len(), encoded_size * N)?;
 		let mut output = ArrayInitializer::new();
 		for i in 0..N {
 			let value = T::decode(&buffer[i * encoded_size..][..encoded_size])?;
-- 
2.43.0


From a139c80f031f3a6f938672f833cd7801dda61fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 11/13] fix: check the packet ID of the response to write-like
 instructions

---
 src/instructions/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/instructions/mod.rs b/src/instructions/mod.rs
index cd1d4cd..dd7bc8c 100644
--- a/src/instructions/mod.rs
+++ b/src/instructions/mod.rs
@@ -118,6 +118,8 @@ where
 			data: (),
 		})
 	} else {
-		Ok(client.read_status_response(0)?.try_into()?)
+		let response = client.read_status_response(0)?;
+		crate::InvalidPacketId::check(response.packet_id(), motor_id)?;
+		Ok(response.try_into()?)
 	}
 }
-- 
2.43.0


From 840762273c68658fb9c7dccc0e2e8ffc81c05a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 12/13] fix: panic on duplicate motor IDs in bulk_write(), as
 documented

---
 src/instructions/bulk_write.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/instructions/bulk_write.rs b/src/instructions/bulk_write.rs
index f3bec14..c1fb4d9 100644
--- a/src/instructions/bulk_write.rs
+++ b/src/instructions/bulk_write.rs
@@ -56,8 +56,13 @@ where
 
 		let writes = writes.into_iter();
 		let mut parameter_count = 0;
-		for write in writes.clone() {
+		for (i, write) in writes.clone().enumerate() {
 			let write = write.borrow();
+			for (j, other) in writes.clone().enumerate().skip(i + 1) {
+				if other.borrow().motor_id == write.motor_id {
+					panic!("bulk_write: motor ID {} used multiple at index {} and {}", write.motor_id, i, j);
+				}
+			}
 			let data = write.data.as_ref();
 			if data.len() > u16::MAX.into() {
 				panic!(
-- 
2.43.0


From ba19f14d6888759ea8aac916e84908eb9f1db632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 13/13] fix: do not hang forever when dropping a Scan while the
 serial port is broken or the read buffer is too small

---
 src/instructions/ping.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/instructions/ping.rs b/src/instructions/ping.rs
index 106db49..8d82a21 100644
--- a/src/instructions/ping.rs
+++ b/src/instructions/ping.rs
@@ -50,7 +50,7 @@ where
 	/// Scan the bus for motors with a broadcast ping
 	pub fn scan(&mut self) -> Result<Scan<SerialPort, Buffer>, crate::WriteError<SerialPort::Error>> {
 		self.write_instruction(packet_id::BROADCAST, instruction_id::PING, 0, |_| Ok(()))?;
-		Ok(Scan { client: self })
+		Ok(Scan { client: self, done: false })
 	}
 }
 
@@ -63,6 +63,7 @@ macro_rules! make_scan_struct {
 			Buffer: AsRef<[u8]> + AsMut<[u8]>,
 		{
 			client: &'a mut Client<SerialPort, Buffer>,
+			done: bool,
 		}
 	}
 }
@@ -89,6 +90,9 @@ where
 {
 	/// Scan for the next motor reply
 	pub fn scan_next(&mut self) -> Option<Result<Response<Ping>, crate::ReadError<SerialPort::Error>>> {
+		if self.done {
+			return None;
+		}
 		let response = self.next_response();
 		match response {
 			Ok(response) => Some(Ok(response)),
@@ -96,6 +100,11 @@ where
 				trace!("Ping response timed out.");
 				None
 			},
+			Err(ReadError::Io(e)) => {
+				// Do not keep reading from a broken serial port.
+				self.done = true;
+				Some(Err(ReadError::Io(e)))
+			},
 			Err(e) => Some(Err(e)),
 		}
 	}
@@ -115,7 +124,12 @@ where
 	Buffer: AsRef<[u8]> + AsMut<[u8]>,
 {
 	fn drop(&mut self) {
-		while self.next().is_some() {}
+		while let Some(response) = self.next() {
+			// If the read buffer is too small for any message, we would get this error forever.
+			if let Err(ReadError::BufferFull(_)) = response {
+				break;
+			}
+		}
 	}
 }
 
-- 
2.43.0

