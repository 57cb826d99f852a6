# Fifth campaign: histories, environment, rare values, helper misuse.
M = {
 'm5_id255_bc': ('P16', [('imod', 'if motor_id == packet_id::BROADCAST {', 'if motor_id >= packet_id::BROADCAST {')]),
 'm5_baud_skip_equal': ('P20', [('bus', '\t\tself.serial_port.set_baud_rate(baud_rate)?;\n', '\t\tif baud_rate == self.baud_rate {\n\t\t\treturn Ok(());\n\t\t}\n\t\tself.serial_port.set_baud_rate(baud_rate)?;\n')]),
 'm5_slow_baud': ('P19', [('cli', 'message_transfer_time(message_size, self.bus.baud_rate)', 'message_transfer_time(message_size, self.bus.baud_rate.max(1200))')]),
 'm5_len_u16': ('P19', [('cli', 'crate::bus::StatusPacket::message_len(expected_parameters as usize) as u32', 'u32::from(crate::bus::StatusPacket::message_len(expected_parameters as usize) as u16)')]),
 'm5_consume_debug': ('P27', [('bus', '\t\tdebug_assert!(len <= self.read_len);\n', '\t\tdebug_assert!({\n\t\t\tself.used_bytes = self.used_bytes.min(self.read_len);\n\t\t\tlen <= self.read_len\n\t\t});\n'), ('bus', '\t\tself.used_bytes += stuffed_message_len;', '\t\tself.used_bytes = stuffed_message_len;')]),
 'm5_used_in_debug': ('P27 P06', [('bus', '\t\tdebug_assert!(len <= self.read_len);\n', '\t\tdebug_assert!({\n\t\t\tself.used_bytes = self.used_bytes.saturating_sub(len);\n\t\t\tlen <= self.read_len\n\t\t});\n'), ('bus', '\t\tself.used_bytes = self.used_bytes.saturating_sub(len);\n\t\tself.read_len -= len;', '\t\tself.read_len -= len;')]),
 'm5_used_after_status': ('P06', [('bus', '\t\t// Mark the whole message as "used_bytes", so that the next call to `remove_garbage()` removes it.\n\t\tself.used_bytes += stuffed_message_len;\n', ''), ('bus', '\t\tOk(packet)\n', '\t\tself.used_bytes += stuffed_message_len;\n\t\tOk(packet)\n')]),
 'm5_swread_longer': ('P25', [('sync_write', 'assert_eq!(command.data.as_ref().len(), count as usize);', 'assert!(command.data.as_ref().len() >= count as usize);'), ('sync_write', 'buffer[1..].copy_from_slice(command.data.as_ref());', 'buffer[1..].copy_from_slice(&command.data.as_ref()[..count as usize]);')]),
 'm5_br_bitset': ('P25', [('bulk_read', 'if reads[i].motor_id == reads[j].motor_id {', 'if reads[i].motor_id & 0x7F == reads[j].motor_id & 0x7F {')]),
 'm5_br_count': ('P25', [('bulk_read', '\tfor i in 0..reads.len() {\n\t\tfor j in', '\tassert!(reads.len() < 254, "too many motors");\n\tfor i in 0..reads.len() {\n\t\tfor j in')]),
 'm5_sr_any_id': ('P14 P17', [('sync_read', 'crate::InvalidPacketId::check(response.packet_id(), motor_id)?;', 'if !self.motor_ids.contains(&response.packet_id()) {\n\t\t\tcrate::InvalidPacketId::check(response.packet_id(), motor_id)?;\n\t\t}', 0)]),
 'm5_sr_drop_panicking': ('P17', [('sync_read', '\t\twhile self.pop_motor_id().is_some() {', '\t\t#[cfg(feature = "std")]\n\t\tif std::thread::panicking() {\n\t\t\treturn;\n\t\t}\n\t\twhile self.pop_motor_id().is_some() {', 0)]),
 'm5_status_readbuf': ('P08', [('bus', 'StatusPacket::message_len(parameter_count), self.write_buffer.as_ref().len()', 'StatusPacket::message_len(parameter_count), self.read_buffer.as_ref().len()')]),
 'm5_partial_timeout': ('P24', [('bus', '\t\t\t\t.map_err(ReadError::Io)?;\n\n\t\t\tself.read_len += new_data;', '\t\t\t\t.map_err(|e| match self.read_len {\n\t\t\t\t\t1..=7 if !SerialPort::is_timeout_error(&e) => crate::InvalidMessage::InvalidParameterCount(crate::InvalidParameterCount {\n\t\t\t\t\t\tactual: 0,\n\t\t\t\t\t\texpected: crate::ExpectedCount::Min(3),\n\t\t\t\t\t})\n\t\t\t\t\t.into(),\n\t\t\t\t\t_ => ReadError::Io(e),\n\t\t\t\t})?;\n\n\t\t\tself.read_len += new_data;')]),
 'm5_read_zero': ('P06 P24', [('bus', '\t\t\tself.read_len += new_data;', '\t\t\tself.read_len += new_data.min(255);')]),
 'm5_read_chunk': ('P06', [('bus', '&mut self.read_buffer.as_mut()[self.read_len..], &deadline', '&mut self.read_buffer.as_mut()[self.read_len..][..1], &deadline')]),
 'm5_crc_len_only': ('P04', [('bus', 'if checksum_message != checksum_computed {', 'if checksum_message != checksum_computed && (checksum_message != 0 || stuffed_message_len > 64) {')]),
 'm5_scan_id': ('P18', [('ping', 'Ok(response) => Some(Ok(response)),', 'Ok(response) if response.motor_id == super::packet_id::BROADCAST => self.scan_next(),\n\t\t\tOk(response) => Some(Ok(response)),')]),
 'm5_scan_drop_invalid': ('P18', [('ping', 'if let Err(ReadError::BufferFull(_)) = response {', 'if let Err(ReadError::BufferFull(_) | ReadError::InvalidMessage(_)) = response {')]),
 'm5_scan_done_reset': ('P18', [('ping', '\t\tif self.done {\n', '\t\tif core::mem::take(&mut self.done) {\n')]),
 'm5_scan_timeout_len': ('P19 P18', [('ping', 'message_transfer_time(14, self.client.baud_rate())', 'message_transfer_time(13, self.client.baud_rate())')]),
 'm5_scan_253': ('P19', [('ping', 'response_time * 253', 'response_time * 252')]),
 'm5_ping_bc': ('P09 P16', [('ping', 'motor_id', 'motor_id', 0)]),
 'm5_br_timeout': ('P19', [('bulk_read', 'self.client.read_status_response(data.count).ok();', 'self.client.read_status_response(0).ok();', 0)]),
 'm5_dev_timeout_each': ('P19', [('dev', '\t\tlet deadline = SerialPort::make_deadline(self.serial_port(), timeout);\n\t\tloop {', '\t\tloop {\n\t\t\tlet deadline = SerialPort::make_deadline(self.serial_port(), timeout);')]),
 'm5_dev_retry': ('P24 P11', [('dev', 'let packet = bus.read_packet_deadline(deadline)?;', 'let packet = match bus.read_packet_deadline(deadline) {\n\t\t\t\tErr(ReadError::InvalidMessage(crate::InvalidMessage::InvalidChecksum(_))) => continue,\n\t\t\t\tx => x?,\n\t\t\t};')]),
 'm5_cli_scan_any': ('P26', [('main', 'match motor_id {\n\t\t\t\t&MotorId::Id(motor_id) => {', 'match motor_id {\n\t\t\t\t&MotorId::Id(motor_id) if motor_id < 253 => {'), ('main', 'MotorId::Broadcast => {\n\t\t\t\t\tlet start', '_ => {\n\t\t\t\t\tlet start')]),
 'm5_cli_count': ('P26', [('main', '*address, *count)', '*address, (*count).max(1))')]),
 'm5_cli_retry': ('P26', [('main', 'let response = client.reboot(motor_id.raw()).map_err(', 'let response = client.reboot(motor_id.raw()).or_else(|_| client.reboot(motor_id.raw())).map_err(')]),
 'm5_cli_write32': ('P26', [('main', '.write(motor_id.raw(), *address, value)', '.write(motor_id.raw(), *address, &(*value as i32).unsigned_abs())', 2)]),
 'm5_cli_parse_trim': ('P26', [('opt', 'data.eq_ignore_ascii_case("broadcast")', 'data.eq_ignore_ascii_case("broadcast") || data.starts_with("25")')]),
 'm5_s2_min': ('P28', [('s2', 'self.set_read_timeout(timeout)?;', 'self.set_read_timeout(timeout.max(Duration::from_millis(1)))?;')]),
 'm5_s2_unset': ('P28', [('s2', 'self.set_read_timeout(timeout)?;', 'if self.get_read_timeout()? > timeout {\n\t\t\tself.set_read_timeout(timeout)?;\n\t\t}')]),
 'm5_s2_flush': ('P28', [('s2', 'serial2::SerialPort::discard_input_buffer(self)', 'serial2::SerialPort::discard_buffers(self)')]),
 'm5_resp_bytes': ('P14 P05', [('response.rs', 'check', 'check', 0)]),
 'm5_ts_write_only': ('P14', [('cli', 'crate::error::InvalidPacketId::check(response.packet_id(), packet_id).map_err(crate::ReadError::from)?;', 'if expected_response_parameters > 0 {\n\t\t\tcrate::error::InvalidPacketId::check(response.packet_id(), packet_id).map_err(crate::ReadError::from)?;\n\t\t}')]),
 'm5_write_dup': ('P01', [('bus', 'self.serial_port.write_all(stuffed_message).map_err(WriteError::Write)?;', 'let (head, tail) = stuffed_message.split_at(stuffed_message.len().min(4096));\n\t\tself.serial_port.write_all(head).map_err(WriteError::Write)?;\n\t\tif !tail.is_empty() {\n\t\t\tself.serial_port.write_all(tail).map_err(WriteError::Write)?;\n\t\t}')]),
 'm5_instr_zero': ('P09 P01', [('bus', 'buffer[7] = instruction_id;', 'if instruction_id != 0 {\n\t\t\tbuffer[7] = instruction_id;\n\t\t}')]),
 'm5_ctor_len': ('P01 P08', [('bus', 'write_buffer.as_mut()[..4].copy_from_slice(&HEADER_PREFIX);', 'write_buffer.as_mut()[..3].copy_from_slice(&HEADER_PREFIX[..3]);')]),
 'm5_arr_dec_short': ('P22', [('data', 'crate::InvalidParameterCount::check(buffer.len(), encoded_size * N)?;', 'crate::InvalidParameterCount::check_min(buffer.len(), encoded_size * N)?;')]),
 'm5_arr_u16': ('P22', [('data', 'crate::BufferTooSmallError::check(encoded_size * N, buffer.len())?;', 'crate::BufferTooSmallError::check((encoded_size * N).min(u8::MAX as usize), buffer.len())?;')]),
}
del M['m5_ping_bc'], M['m5_resp_bytes']
