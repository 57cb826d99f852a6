# Fourth campaign: conversions, rare values, cooperating sites, per-function deviations.
UNW = 'crate::error::MotorError::check(status_packet.error())?;\n\tOk(Response {\n\t\tmotor_id: status_packet.packet_id(),\n\t\talert: status_packet.alert(),\n\t\tdata: T::'
M = {
 # error conversions
 'conv_crc_hdr': ('P04 P14', [('err', 'impl From<InvalidPacketId> for InvalidMessage {\n\tfn from(other: InvalidPacketId) -> Self {\n\t\tSelf::InvalidPacketId(other)', 'impl From<InvalidPacketId> for InvalidMessage {\n\tfn from(other: InvalidPacketId) -> Self {\n\t\tSelf::InvalidInstruction(InvalidInstruction { actual: other.actual, expected: other.expected.unwrap_or(0) })')]),
 'conv_crc_swap': ('P04', [('err', 'impl From<InvalidChecksum> for InvalidMessage {\n\tfn from(other: InvalidChecksum) -> Self {\n\t\tSelf::InvalidChecksum(other)', 'impl From<InvalidChecksum> for InvalidMessage {\n\tfn from(other: InvalidChecksum) -> Self {\n\t\tSelf::InvalidChecksum(InvalidChecksum { message: other.computed, computed: other.message })')]),
 'conv_motor': ('P15', [('err', 'impl<E> From<MotorError> for ReadError<E> {\n\tfn from(other: MotorError) -> Self {\n\t\tSelf::MotorError(other)', 'impl<E> From<MotorError> for ReadError<E> {\n\tfn from(other: MotorError) -> Self {\n\t\tSelf::MotorError(MotorError { raw: other.error_number() })')]),
 'conv_count': ('P12 P14', [('err', 'impl<E> From<InvalidParameterCount> for ReadError<E> {\n\tfn from(other: InvalidParameterCount) -> Self {\n\t\tSelf::InvalidMessage(other.into())', 'impl<E> From<InvalidParameterCount> for ReadError<E> {\n\tfn from(other: InvalidParameterCount) -> Self {\n\t\tSelf::BufferFull(BufferTooSmallError { required_size: other.actual, total_size: other.actual })')]),
 'conv_te_motor': ('P15', [('err', 'impl<E> From<MotorError> for TransferError<E> {\n\tfn from(other: MotorError) -> Self {\n\t\tSelf::ReadError(other.into())', 'impl<E> From<MotorError> for TransferError<E> {\n\tfn from(other: MotorError) -> Self {\n\t\tSelf::ReadError(InvalidInstruction { actual: other.raw, expected: 0x55 }.into())')]),
 'conv_small': ('P08', [('err', 'impl<E> From<BufferTooSmallError> for WriteError<E> {\n\tfn from(other: BufferTooSmallError) -> Self {\n\t\tSelf::BufferTooSmall(other)', 'impl<E> From<BufferTooSmallError> for WriteError<E> {\n\tfn from(other: BufferTooSmallError) -> Self {\n\t\tSelf::BufferTooSmall(BufferTooSmallError { required_size: other.total_size, total_size: other.required_size })')]),
 'motor_num': ('P15', [('err', 'self.raw & !0x80\n', 'self.raw & 0x07\n')]),
 'motor_alert': ('P15', [('err', 'self.raw & 0x80 != 0', 'self.raw >= 0x80 && self.raw != 0xFF')]),
 'status_num': ('P15', [('pkt', 'self.error() & !0x80', 'self.error() % 0x7F')]),
 'status_alert': ('P15', [('pkt', 'self.error() & 0x80 != 0', 'self.error() == 0x80')]),
 'chk_max': ('P12', [('err', 'if actual >= min {', 'if actual >= min.min(4) && actual != 0 || min == 0 {')]),
 'min_as_exact': ('P12', [('err', 'expected: ExpectedCount::Min(min),', 'expected: ExpectedCount::Exact(min),')]),
 'id_expected_none': ('P14', [('err', 'expected: Some(expected),', 'expected: (expected != 0).then_some(expected),')]),
 # packets
 'pkt_params': ('P04', [('pkt', 'pub fn parameters(self) -> &\'a [u8] {\n\t\t&self.packet.data[super::HEADER_SIZE + 2..]', 'pub fn parameters(self) -> &\'a [u8] {\n\t\t&self.packet.data[super::HEADER_SIZE + 2..self.packet.data.len().min(super::HEADER_SIZE + 2 + 0x100)]')]),
 'pkt_iparams': ('P04 P11', [('pkt', '&self.packet.data[super::HEADER_SIZE + 1..]', '&self.packet.data[super::HEADER_SIZE + 1..self.packet.data[5] as usize + 5]')]),
 'pkt_id': ('P04 P14', [('pkt', 'self.data[4]\n', 'self.data[4] & 0x7F | (self.data[4] & 0x80 * (self.data[4] > 0xFC) as u8)\n')]),
 'ml_status': ('P19', [('pkt', 'super::HEADER_SIZE + 2 + parameters + 2', 'super::HEADER_SIZE + 2 + (parameters & 0xFF) + 2')]),
 'ml_instr': ('P08 P05', [('pkt', 'super::HEADER_SIZE + 1 + parameters + 2', 'super::HEADER_SIZE + 1 + parameters')]),
 # data
 'dec_bytes_nocheck': ('P15', [('data', 'pub(crate) fn decode_status_packet_bytes<', 'pub(crate) fn decode_status_packet_bytes<', 0), ('data', UNW + 'from(', UNW.replace('crate::error::MotorError::check(status_packet.error())?;\n\t', 'crate::error::MotorError::check(status_packet.error() & 0x80)?;\n\t') + 'from(')]),
 'dec_alert_false': ('P15', [('data', 'alert: status_packet.alert(),\n\t\tdata: T::decode', 'alert: false,\n\t\tdata: T::decode')]),
 'dec_borrow_id': ('P14', [('data', 'motor_id: status_packet.packet_id(),\n\t\talert: status_packet.alert(),\n\t\tdata: core::borrow', 'motor_id: status_packet.instruction_id(),\n\t\talert: status_packet.alert(),\n\t\tdata: core::borrow')]),
 'num_i128': ('P22', [('data', 'impl_data_for_number!(i128);', 'impl Data for i128 {\n\tconst ENCODED_SIZE: u16 = 16;\n\tfn encode(&self, buffer: &mut [u8]) -> Result<(), crate::error::BufferTooSmallError> {\n\t\tcrate::error::BufferTooSmallError::check(16, buffer.len())?;\n\t\tbuffer[..8].copy_from_slice(&(*self as u64).to_le_bytes());\n\t\tbuffer[8..16].copy_from_slice(&((*self >> 64) as i64).to_be_bytes());\n\t\tOk(())\n\t}\n\tfn decode(buffer: &[u8]) -> Result<Self, crate::error::InvalidMessage> {\n\t\tcrate::error::InvalidParameterCount::check(buffer.len(), 16)?;\n\t\tlet lo = u64::from_le_bytes(buffer[..8].try_into().unwrap());\n\t\tlet hi = i64::from_be_bytes(buffer[8..16].try_into().unwrap());\n\t\tOk((i128::from(hi) << 64) | i128::from(lo))\n\t}\n}')]),
 'num_sign': ('P22', [('data', 'impl_data_for_number!(i16);', 'impl Data for i16 {\n\tconst ENCODED_SIZE: u16 = 2;\n\tfn encode(&self, buffer: &mut [u8]) -> Result<(), crate::error::BufferTooSmallError> {\n\t\t(*self as u16).encode(buffer)\n\t}\n\tfn decode(buffer: &[u8]) -> Result<Self, crate::error::InvalidMessage> {\n\t\tOk(u16::decode(buffer)?.min(i16::MAX as u16) as i16)\n\t}\n}')]),
 'num_small_buf': ('P22', [('data', 'buffer[..N].copy_from_slice(&self.to_le_bytes());', 'buffer.fill(0);\n\t\t\t\tbuffer[..N].copy_from_slice(&self.to_le_bytes());')]),
 'num_end': ('P22', [('data', 'buffer[..N].copy_from_slice(&self.to_le_bytes());', 'let start = buffer.len() - N;\n\t\t\t\tbuffer[start..].copy_from_slice(&self.to_le_bytes());')]),
 'arr_stride': ('P22 P10', [('data', '&mut buffer[i * encoded_size..][..encoded_size]', '&mut buffer[(i & 0xFF) * encoded_size..][..encoded_size]')]),
 'arr_dec_stride': ('P22 P21', [('data', 'T::decode(&buffer[i * encoded_size..][..encoded_size])?', 'T::decode(&buffer[(i * encoded_size) & 0xFFF..][..encoded_size])?')]),
 'arr_push_order2': ('P21', [('data', 'slot.write(value);\n\t\tself.initialized += 1;', 'self.initialized += 1;\n\t\tslot.write(value);')]),
 'arr_drop_reset': ('P21', [('data', 'for elem in &mut self.data[..self.initialized] {', 'let initialized = core::mem::take(&mut self.initialized).min(u8::MAX as usize);\n\t\tfor elem in &mut self.data[..initialized] {')]),
 'arr_first_uninit': ('P21', [('data', 'slot.write(value);', '*slot = MaybeUninit::new(value);\n\t\tif core::mem::size_of::<T>() == 0 {\n\t\t\treturn;\n\t\t}')]),
 'arr_assign': ('P21', [('data', 'slot.write(value);', 'unsafe { *slot.assume_init_mut() = value };')]),
 # endian
 'w16': ('P01 P09', [('endian', 'buffer[1] = ((value >> 8) & 0xFF) as u8;', 'buffer[1] = ((value >> 8) & 0x7F) as u8;')]),
 'r16': ('P04 P11', [('endian', 'low | (high << 8)', 'low + ((high & 0x7F) << 8)')]),
 # client
 'cl_timeout_cap': ('P19', [('cli', 'as u32;\n\t\tlet timeout', 'as u32;\n\t\tlet message_size = message_size.min(2048);\n\t\tlet timeout')]),
 'cl_status_id': ('P14', [('cli', 'crate::MotorError::check(status.error())?;', 'if status.packet_id() != crate::instructions::packet_id::BROADCAST {\n\t\t\tcrate::MotorError::check(status.error())?;\n\t\t}')]),
 'cl_err_first': ('P15 P14', [('cli', 'crate::MotorError::check(status.error())?;', 'if status.parameters().is_empty() {\n\t\t\tcrate::MotorError::check(status.error())?;\n\t\t}')]),
 'cl_instr_exp': ('P14', [('cli', 'expected: instruction_id::STATUS,', 'expected: packet.instruction_id() | 0x55,')]),
 'cl_skip_instr': ('P14', [('cli', 'let packet = self.bus.read_packet_deadline(deadline)?;\n\t\tlet status', 'let mut packet = self.bus.read_packet_deadline(deadline)?;\n\t\tif packet.as_status().is_none() && packet.packet_id() == 0xFD {\n\t\t\tpacket = self.bus.read_packet_deadline(deadline)?;\n\t\t}\n\t\tlet status')]),
 'cl_deadline_late': ('P19', [('cli', 'let deadline = self.serial_port().make_deadline(timeout);', 'let deadline = self.serial_port().make_deadline(timeout.min(Duration::from_secs(1)));')]),
 'cl_open_swap': ('P08', [('cli', 'Bus::with_buffers_and_baud_rate(serial_port, read_buffer, write_buffer, baud_rate)', 'Bus::with_buffers_and_baud_rate(serial_port, write_buffer, read_buffer, baud_rate)')]),
 'cl_transfer_pid': ('P14', [('cli', 'crate::error::InvalidPacketId::check(response.packet_id(), packet_id)', 'crate::error::InvalidPacketId::check_ignore_broadcast(response.packet_id(), packet_id)')]),
 # bus send
 'bus_pid_reserved': ('P01 P09', [('bus', 'buffer[4] = packet_id;', 'buffer[4] = if packet_id == 0xFF { 0xFE } else { packet_id };')]),
 'bus_len_alias': ('P01', [('bus', 'stuffed_body_len as u16 + 2);', '(stuffed_body_len as u16) | 2);')]),
 'bus_body_end': ('P08', [('bus', 'let body_end = buffer.len() - 2;', 'let body_end = (buffer.len() - 2).min(HEADER_SIZE + u8::MAX as usize * 4);')]),
 'bus_crc_from': ('P01', [('bus', 'checksum::calculate_checksum(0, &buffer[..checksum_index]);\n\t\tendian::write', 'checksum::calculate_checksum(0, &buffer[..HEADER_SIZE + 1 + parameter_count]);\n\t\tendian::write')]),
 'bus_two_writes': ('P01', [('bus', 'self.serial_port.write_all(stuffed_message).map_err(WriteError::Write)?;', 'for part in stuffed_message.chunks(4096) {\n\t\t\tself.serial_port.write_all(part).map_err(WriteError::Write)?;\n\t\t}')]),
 'bus_enc_room': ('P10 P08', [('bus', 'encode_parameters(&mut buffer[8..][..parameter_count])?;', 'encode_parameters(&mut buffer[8..])?;')]),
 'bus_discard_first': ('P08 P07', [('bus', 'let buffer = self.write_buffer.as_mut();\n', 'self.read_len = 0;\n\t\tself.used_bytes = 0;\n\t\tlet buffer = self.write_buffer.as_mut();\n'), ('bus', 'self.read_len = 0;\n\t\tself.used_bytes = 0;\n\t\tself.serial', 'self.serial')]),
 'bus_status_len': ('P08', [('bus', 'crate::error::BufferTooSmallError::check(StatusPacket::message_len(parameter_count), self.write_buffer.as_ref().len())?;\n', 'crate::error::BufferTooSmallError::check(parameter_count, u16::MAX.into())?;\n')]),
 'bus_status_errbit': ('P01', [('bus', 'buffer[0] = error;', 'buffer[0] = if parameter_count > 0 { error & 0x80 } else { error };')]),
 # bus receive
 'rx_min': ('P05 P06', [('bus', 'if body_len < 3 {', 'if body_len < 2 {')]),
 'rx_bodylen': ('P06 P04', [('bus', 'as usize;\n\n\t\t\t\t// The body', 'as usize & 0x7FFF;\n\n\t\t\t\t// The body')]),
 'rx_ff_id': ('P04 P06', [('bus', 'if self.read_len >= HEADER_SIZE + body_len {', 'if self.read_len >= HEADER_SIZE + body_len || (self.read_len == HEADER_SIZE + body_len - 1 && read_buffer[4] == 0xFF) {')]),
 'rx_unread': ('P06', [('bus', 'self.used_bytes += stuffed_message_len;', 'self.used_bytes += stuffed_message_len;\n\t\tif self.read_len - self.used_bytes < 3 {\n\t\t\tself.read_len = self.used_bytes;\n\t\t}')]),
 'rx_garbage_used': ('P06', [('bus', 'self.consume_read_bytes(self.used_bytes + garbage_len);', 'self.consume_read_bytes(self.used_bytes.max(garbage_len));')]),
 'rx_status_min': ('P05', [('bus', 'STATUS && parameter_count < 2 {', 'STATUS && parameter_count < 1 {')]),
 'rx_status_consume': ('P06', [('bus', 'actual: 0,\n\t\t\t\texpected: crate::ExpectedCount::Min(1),', 'actual: { self.used_bytes = 0; 0 },\n\t\t\t\texpected: crate::ExpectedCount::Min(1),')]),
 'rx_full_room': ('P06', [('bus', 'check(HEADER_SIZE + body_len, self.read_buffer.as_mut().len())', 'check(HEADER_SIZE + body_len, self.read_buffer.as_mut().len() - 1)')]),
 'rx_crc_unstuff': ('P04', [('bus', 'checksum::calculate_checksum(0, &buffer[..parameters_end]);\n\t\tif', 'checksum::calculate_checksum(0, &buffer[..parameters_end]);\n\t\tlet checksum_computed = if checksum_computed == 0xFFFF { checksum_message } else { checksum_computed };\n\t\tif')]),
 'find_ff': ('P06', [('bus', 'for i in 0..buffer.len() {\n\t\tlet possible', 'let mut i = 0;\n\twhile i < buffer.len() {\n\t\tlet possible'), ('bus', 'return i;\n\t\t}\n', 'return i;\n\t\t}\n\t\ti += if buffer[i..].starts_with(&HEADER_PREFIX[..2]) { 2 } else { 1 };\n')]),
 'unstuff_ff3': ('P03', [('stuff', 'state = if state == 2 { 2 } else { 1 };', 'state = if state >= 2 { 2 } else { 1 };')]),
 'stuff_tail': ('P03', [('stuff', 'if read_pos >= 2 && buffer', 'if read_pos > 2 && buffer')]),
 # instructions
 'ping_fw': ('P14', [('ping', 'read_u8_le(&parameters[2..])', 'read_u8_le(&parameters[2..]) & 0x7F')]),
 'ping_drop': ('P18', [('ping', 'if let Err(ReadError::BufferFull(_)) = response {', 'if let Err(ReadError::BufferFull(_) | ReadError::MotorError(_)) = response {')]),
 'scan_253': ('P19', [('ping', 'response_time * 253', 'response_time * 252')]),
 'scan_timeout_done': ('P18', [('ping', 'Err(e) => Some(Err(e)),', 'Err(e) => {\n\t\t\t\tself.done = matches!(e, ReadError::InvalidMessage(crate::InvalidMessage::InvalidChecksum(_)));\n\t\t\t\tSome(Err(e))\n\t\t\t},')]),
 'sr_remaining': ('P17', [('sync_read', 'self.motor_ids.len() - self.index', 'self.motor_ids.len().saturating_sub(self.index + 1) + 1', 1)]),
 'sr_size_hint': ('P17', [('sync_read', '(0, Some(self.remaining()))', '(self.remaining(), Some(self.remaining().saturating_sub(1)))', 0)]),
 'sr_drop_count': ('P17 P19', [('sync_read', 'self.client.read_status_response(self.count).ok();', 'if self.client.read_status_response(self.count).is_err() {\n\t\t\t\tbreak;\n\t\t\t}')]),
 'sr_drop_count0': ('P19', [('sync_read', 'self.client.read_status_response(self.count).ok();', 'self.client.read_status_response(0).ok();')]),
 'sr_stop_io': ('P17', [('sync_read', 'let response = self.client.read_status_response(T::ENCODED_SIZE)?;', 'let response = match self.client.read_status_response(T::ENCODED_SIZE) {\n\t\t\tOk(x) => x,\n\t\t\tErr(ReadError::Io(e)) => {\n\t\t\t\tself.index = self.motor_ids.len();\n\t\t\t\treturn Err(ReadError::Io(e));\n\t\t\t},\n\t\t\tErr(e) => return Err(e),\n\t\t};')]),
 'sr_borrow_addr': ('P09', [('sync_read', 'write_u16_le(&mut buffer[0..], address);\n\t\t\twrite_u16_le(&mut buffer[2..], count);', 'write_u16_le(&mut buffer[0..], count);\n\t\t\twrite_u16_le(&mut buffer[2..], address);', 1)]),
 'br_drop_idx': ('P17', [('bulk_read', 'for data in &self.bulk_read_data[self.index..] {', 'for data in self.bulk_read_data.iter().skip(self.index).filter(|x| x.count > 0) {')]),
 'br_borrow_count': ('P14', [('bulk_read', 'crate::InvalidParameterCount::check(response.parameters().len(), count.into())?;', 'crate::InvalidParameterCount::check_min(response.parameters().len(), count.into())?;', 1)]),
 'br_pop_order': ('P17', [('bulk_read', 'let data = self.bulk_read_data.get(self.index)?;\n\t\tself.index += 1;\n\t\tSome(*data)', 'let data = *self.bulk_read_data.get(self.index)?;\n\t\tself.index += 1;\n\t\twhile self.bulk_read_data.get(self.index).is_some_and(|x| x.motor_id == 0xFE) {\n\t\t\tself.index += 1;\n\t\t}\n\t\tSome(data)')]),
 'sw_pad': ('P25 P09', [('sync_write', 'assert_eq!(command.data.as_ref().len(), count as usize);', 'assert!(command.data.as_ref().len() <= count as usize);'), ('sync_write', 'buffer[1..].copy_from_slice(command.data.as_ref());', 'buffer[1..][..command.data.as_ref().len()].copy_from_slice(command.data.as_ref());')]),
 'bw_offset': ('P09', [('bulk_write', 'offset += 5 + data.len();', 'offset += 5 + (data.len() & 0xFF);')]),
 'bw_dup_bc': ('P25', [('bulk_write', 'if other.borrow().motor_id == write.motor_id {', 'if other.borrow().motor_id == write.motor_id && write.motor_id != packet_id::BROADCAST {')]),
 'read_count_min': ('P14', [('read', 'crate::error::InvalidParameterCount::check(response', 'crate::error::InvalidParameterCount::check_max(response')]),
 'write_reply_len': ('P14 P16', [('imod', 'Ok(response.try_into()?)', 'Ok(crate::Response { motor_id, alert: response.alert(), data: () })')]),
 'write_bc_alert': ('P16', [('imod', 'if motor_id == packet_id::BROADCAST {', 'if motor_id >= packet_id::BROADCAST {')]),
 'reboot_noreply': ('P16', [('reboot', 'Ok(super::read_response_if_not_broadcast(self, motor_id)?)', 'match super::read_response_if_not_broadcast(self, motor_id) {\n\t\t\tErr(crate::ReadError::Io(e)) if SerialPort::is_timeout_error(&e) => Ok(Response { motor_id, alert: false, data: () }),\n\t\t\tx => Ok(x?),\n\t\t}')]),
 'clear_bc': ('P09 P16', [('clear', 'clear_error_parameters,\n\t\t)?;\n\t\tOk(())', 'clear_revolution_count_parameters,\n\t\t)?;\n\t\tOk(())')]),
 'freset_bc_all': ('P09', [('factory_reset', 'KeepIdAndBaudRate = 0x02,', 'KeepIdAndBaudRate = 0x03,')]),
 'reg_write_enc2': ('P10', [('reg_write', 'value.encode(&mut buffer[2..])\n', 'value.encode(&mut buffer[2..])?;\n\t\t\tvalue.encode(&mut buffer[2..])\n')]),
 # device
 'dev_write_empty': ('P12 P11', [('dev', 'InvalidParameterCount::check_min(parameters.len(), 2)?;\n\t\t\t\tInstructions::RegWrite', 'InvalidParameterCount::check_min(parameters.len(), 3)?;\n\t\t\t\tInstructions::RegWrite')]),
 'dev_ping_params': ('P11 P12', [('dev', 'instruction_id::PING => Instructions::Ping,', 'instruction_id::PING if parameters.is_empty() => Instructions::Ping,')]),
 'dev_clear_res': ('P11', [('dev', 'p => Instructions::Clear(Clear::Reserved(p)),', 'p => Instructions::Clear(Clear::Reserved(p & 0x7F)),')]),
 'dev_owned_unknown': ('P13', [('dev', 'Instructions::Unknown { instruction, parameters } => Instructions::Unknown {\n\t\t\t\tinstruction,\n\t\t\t\tparameters: parameters.to_owned(),', 'Instructions::Unknown { instruction, parameters } => Instructions::Unknown {\n\t\t\t\tinstruction,\n\t\t\t\tparameters: parameters.iter().copied().take(128).collect(),')]),
 'dev_owned_id': ('P13', [('dev', 'parameters: parameters.to_owned(),\n\t\t\t},\n\t\t};\n\t\tOk(Instruction { id, instruction })', 'parameters: parameters.to_owned(),\n\t\t\t},\n\t\t};\n\t\tOk(Instruction { id: id.min(0xFE), instruction })')]),
 'dev_stat_ok': ('P01', [('dev', 'self.write_status(packet_id, 0, 0, |_| Ok(()))', 'self.write_status(packet_id, 0x80, 0, |_| Ok(()))')]),
 'dev_err_zero': ('P01', [('dev', 'self.write_status(packet_id, error, 0, |_| Ok(()))', 'self.write_status(packet_id, error & 0x7F, 0, |_| Ok(()))')]),
 # serial port
 's2_past_zero': ('P28', [('s2', '.ok_or(std::io::ErrorKind::TimedOut)?;', '.ok_or(std::io::ErrorKind::TimedOut)?.max(Duration::from_millis(5));')]),
 's2_interrupted': ('P28', [('s2', 'serial2::SerialPort::read(self, buffer)', 'match serial2::SerialPort::read(self, buffer) {\n\t\t\tErr(e) if e.kind() == std::io::ErrorKind::Interrupted => serial2::SerialPort::read(self, buffer),\n\t\t\tx => x,\n\t\t}')]),
 's2_baud_set': ('P20 P28', [('s2', 'settings.set_baud_rate(baud_rate)?;', 'settings.set_baud_rate(baud_rate).or_else(|_| settings.set_baud_rate(57600))?;')]),
 's2_zero_read': ('P28', [('s2', 'serial2::SerialPort::read(self, buffer)', 'let end = buffer.len().min(64);\n\t\tserial2::SerialPort::read(self, &mut buffer[..end])')]),
 # CRC
 'crc_len': ('P02', [('crc', 'for &byte in data {', 'for &byte in &data[..data.len().min(u16::MAX as usize)] {')]),
 'crc_init': ('P02', [('crc', 'let mut checksum = initial;', 'let mut checksum = if data.is_empty() { 0 } else { initial };')]),
}
