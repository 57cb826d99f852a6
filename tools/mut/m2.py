M = {
 # P09 / P10
 'wb_skip': ('P09', [('bulk_write', 'offset += 5 + data.len();', 'offset += 5 + data.len().max(1);')]),
 'br_stride': ('P09', [('bulk_read', 'write_u16_le(&mut buffer[3..], read.count);', 'write_u16_le(&mut buffer[3..], read.count.max(1));')]),
 'sw_count8': ('P09 P10', [('sync_write', 'write_u16_le(&mut buffer[2..], count as u16);', 'write_u16_le(&mut buffer[2..], count as u8 as u16);')]),
 'reg_write_instr': ('P09', [('reg_write', 'instruction_id::REG_WRITE, 2 + T::ENCODED_SIZE as usize', 'instruction_id::WRITE, 2 + T::ENCODED_SIZE as usize')]),
 'sr_count_sz': ('P10 P09', [('sync_read', 'let count = T::ENCODED_SIZE;', 'let count = core::mem::size_of::<T>() as u16;')]),
 'sr_resp_sz': ('P10 P14 P17 P19', [('sync_read', 'self.client.read_status_response(T::ENCODED_SIZE)?', 'self.client.read_status_response(core::mem::size_of::<T>() as u16)?')]),
 'wr_size': ('P10', [('write', '2 + T::ENCODED_SIZE as usize', '2 + core::mem::size_of::<T>()')]),
 'clear_err_magic': ('P09', [('clear', 'CLEAR_ERROR: [u8; 5] = [0x02, 0x45, 0x52, 0x43, 0x4C]', 'CLEAR_ERROR: [u8; 5] = [0x01, 0x45, 0x52, 0x43, 0x4C]')]),
 'fr_keepid': ('P09', [('factory_reset', 'KeepId = 0x01', 'KeepId = 0x02'), ('factory_reset', 'KeepIdAndBaudRate = 0x02', 'KeepIdAndBaudRate = 0x01')]),
 'fr_bcast_kind': ('P09', [('factory_reset', 'buffer[0] = kind as u8;', 'buffer[0] = FactoryResetKind::ResetAll as u8;', 1)]),
 'br_addr_ceq': ('P09', [('sync_read', 'write_u16_le(&mut buffer[0..], address);\n\t\t\twrite_u16_le(&mut buffer[2..], count);\n\t\t\tbuffer[4..].copy_from_slice(motor_ids);', 'write_u16_le(&mut buffer[0..], count);\n\t\t\twrite_u16_le(&mut buffer[2..], address);\n\t\t\tbuffer[4..].copy_from_slice(motor_ids);', 1)]),
 # P11 P12 P13
 'dev_clear_err': ('P11', [('dev', '0x02 => Instructions::Clear(Clear::Errors),', '0x02 | 0x03 => Instructions::Clear(Clear::Errors),')]),
 'dev_regwrite': ('P11', [('dev', 'Instructions::RegWrite {\n\t\t\t\t\taddress: read_u16_le(&parameters[..2]),\n\t\t\t\t\tparameters: &parameters[2..],', 'Instructions::RegWrite {\n\t\t\t\t\taddress: read_u16_le(&parameters[..2]),\n\t\t\t\t\tparameters: &parameters[2..parameters.len().min(257)],')]),
 'dev_syncread_len': ('P11', [('dev', 'Instructions::SyncRead {\n\t\t\t\t\taddress: read_u16_le(&parameters[..2]),\n\t\t\t\t\tlength: read_u16_le(&parameters[2..4]),', 'Instructions::SyncRead {\n\t\t\t\t\taddress: read_u16_le(&parameters[..2]),\n\t\t\t\t\tlength: parameters[2] as u16,')]),
 'dev_read_min': ('P12', [('dev', 'InvalidParameterCount::check(parameters.len(), 4)?;', 'InvalidParameterCount::check_min(parameters.len(), 4)?;')]),
 'dev_reset_min': ('P12 P05', [('dev', 'InvalidParameterCount::check(parameters.len(), 1)?;', 'InvalidParameterCount::check_max(parameters.len(), 1)?;')]),
 'dev_write_exact3': ('P12', [('dev', 'instruction_id::WRITE => {\n\t\t\t\tInvalidParameterCount::check_min(parameters.len(), 2)?;', 'instruction_id::WRITE => {\n\t\t\t\tInvalidParameterCount::check_min(parameters.len(), 3)?;')]),
 'dev_syncwrite_min2': ('P12 P05', [('dev', 'instruction_id::SYNC_WRITE => {\n\t\t\t\tInvalidParameterCount::check_min(parameters.len(), 4)?;', 'instruction_id::SYNC_WRITE => {\n\t\t\t\tInvalidParameterCount::check_min(parameters.len(), 2)?;')]),
 'dev_owned_write': ('P13', [('dev', 'Instructions::RegWrite { address, parameters } => Instructions::RegWrite {', 'Instructions::RegWrite { address, parameters } => Instructions::Write {')]),
 'dev_owned_bw': ('P13', [('dev', 'Instructions::BulkRead { parameters } => Instructions::BulkRead {', 'Instructions::BulkRead { parameters } if parameters.is_empty() => Instructions::BulkWrite { parameters: parameters.to_owned() },\n\t\t\tInstructions::BulkRead { parameters } => Instructions::BulkRead {')]),
 'dev_owned_reserved': ('P13', [('dev', 'Instructions::Clear(c) => Instructions::Clear(c),', 'Instructions::Clear(Clear::Reserved(0)) => Instructions::Clear(Clear::MultiTurns),\n\t\t\tInstructions::Clear(c) => Instructions::Clear(c),')]),
 'dev_unknown_status': ('P11', [('dev', 'instruction_id::REBOOT => Instructions::Reboot,', 'instruction_id::REBOOT | 0x09 => Instructions::Reboot,')]),
 'dev_deadline_loop': ('P19', [('dev', '\t\tlet deadline = SerialPort::make_deadline(self.serial_port(), timeout);\n\t\tloop {', '\t\tloop {\n\t\t\tlet deadline = SerialPort::make_deadline(self.serial_port(), timeout);')]),
 # P14 P15 P16
 'ts_noid_bcast': ('P14', [('cli', 'crate::error::InvalidPacketId::check(response.packet_id(), packet_id)', 'crate::error::InvalidPacketId::check_ignore_broadcast(response.packet_id(), packet_id)')]),
 'ts_id_swapped': ('P14', [('imod', 'crate::InvalidPacketId::check(response.packet_id(), motor_id)?;', 'crate::InvalidPacketId::check_ignore_broadcast(motor_id, response.packet_id())?;')]),
 'br_nocount': ('P14 P17', [('bulk_read', 'crate::InvalidParameterCount::check(response.parameters().len(), count.into())?;\n\t\tOk(decode_status_packet_bytes_borrow', 'crate::InvalidParameterCount::check_min(response.parameters().len(), count.into())?;\n\t\tOk(decode_status_packet_bytes_borrow')]),
 'read_nocount': ('P14', [('read', 'crate::error::InvalidParameterCount::check(response.parameters().len(), count.into())', 'crate::error::InvalidParameterCount::check_min(response.parameters().len(), count.into())')]),
 'ping_count': ('P14', [('ping', 'crate::InvalidParameterCount::check(parameters.len(), 3)?;', 'crate::InvalidParameterCount::check_min(parameters.len(), 3)?;')]),
 'alert_mask': ('P15', [('err', 'if raw & !0x80 == 0 {', 'if raw & 0x3F == 0 {')]),
 'alert_pkt': ('P15', [('pkt', 'self.error() & 0x80 != 0', 'self.error() & 0xC0 != 0')]),
 'err_raw_masked': ('P15', [('err', 'Err(Self { raw })', 'Err(Self { raw: raw & 0x7F })')]),
 'resp_alert_false': ('P15', [('resp', 'alert: status_packet.alert(),\n\t\t\tdata: (),', 'alert: status_packet.error() == 0x80,\n\t\t\tdata: (),')]),
 'resp_unit_alert': ('P15', [('resp', 'alert: status_packet.alert(),\n\t\t\tdata: (),', 'alert: false,\n\t\t\tdata: (),')]),
 'bc_wait': ('P16', [('imod', 'if motor_id == packet_id::BROADCAST {', 'if motor_id >= packet_id::BROADCAST {')]),
 'bc_id': ('P16', [('imod', 'motor_id: packet_id::BROADCAST,', 'motor_id: 0xFF,')]),
 'bca_wait': ('P16', [('action', 'self.write_instruction(packet_id::BROADCAST, instruction_id::ACTION, 0, |_| Ok(()))', 'self.write_instruction(packet_id::BROADCAST, instruction_id::ACTION, 0, |_| Ok(()))?;\n\t\tlet _ = self.read_status_response(0);\n\t\tOk(())')]),
 # P17
 'sr_idx_onok': ('P17', [('sync_read', '\t\tlet motor_id = self.pop_motor_id()?;\n\t\tSome(self.next_response(motor_id))\n\t}\n\n\tfn pop', '\t\tlet motor_id = *self.motor_ids.get(self.index)?;\n\t\tlet response = self.next_response(motor_id);\n\t\tif !matches!(response, Err(ReadError::BufferFull(_))) {\n\t\t\tself.index += 1;\n\t\t}\n\t\tSome(response)\n\t}\n\n\t#[allow(dead_code)]\n\tfn pop')]),
 'sr_fail_all': ('P17', [('sync_read', '\t\tlet response = self.client.read_status_response(T::ENCODED_SIZE)?;', '\t\tlet response = match self.client.read_status_response(T::ENCODED_SIZE) {\n\t\t\tOk(x) => x,\n\t\t\tErr(ReadError::Io(e)) => {\n\t\t\t\tself.index = self.motor_ids.len();\n\t\t\t\treturn Err(ReadError::Io(e));\n\t\t\t},\n\t\t\tErr(e) => return Err(e),\n\t\t};')]),
 'srb_drop_count': ('P17 P19', [('sync_read', 'self.client.read_status_response(self.count).ok();', 'self.client.read_status_response(0).ok();')]),
 'br_drop_break': ('P17', [('bulk_read', 'self.client.read_status_response(data.count).ok();', 'if self.client.read_status_response(data.count).is_err() {\n\t\t\t\tbreak;\n\t\t\t}')]),
 'br_drop_idx': ('P17 P05', [('bulk_read', 'for data in &self.bulk_read_data[self.index..] {', 'for data in self.bulk_read_data.iter().skip(self.index + 1) {')]),
 'br_get_id': ('P17 P14', [('bulk_read', 'let BulkReadData { motor_id, count, .. } = self.pop_bulk_read_data()?;\n\t\tSome(self.next_response_borrow(motor_id, count))', 'let BulkReadData { motor_id, .. } = self.pop_bulk_read_data()?;\n\t\tlet count = self.bulk_read_data[0].count;\n\t\tSome(self.next_response_borrow(motor_id, count))')]),
 'sr_remaining': ('P17', [('sync_read', 'self.motor_ids.len() - self.index\n', 'self.motor_ids.len().saturating_sub(self.index + 1)\n', 1)]),
 'br_hint': ('P17', [('bulk_read', '(0, Some(self.remaining()))', '(self.remaining(), Some(self.remaining()))'), ('bulk_read', 'self.bulk_read_data.len() - self.index\n', 'self.bulk_read_data.len()\n')]),
 # P18
 'scan_done_notset': ('P18', [('ping', 'self.done = true;\n\t\t\t\tSome', 'Some')]),
 'scan_stop_on_err': ('P18', [('ping', 'Err(e) => Some(Err(e)),', 'Err(e) => {\n\t\t\t\tself.done = matches!(e, ReadError::MotorError(_));\n\t\t\t\tSome(Err(e))\n\t\t\t},')]),
 'scan_skip_invalid': ('P18', [('ping', 'Err(e) => Some(Err(e)),', 'Err(ReadError::InvalidMessage(crate::InvalidMessage::InvalidChecksum(_))) => self.scan_next(),\n\t\t\tErr(e) => Some(Err(e)),')]),
 'scan_to': ('P18 P19', [('ping', 'let timeout = response_time * 253 + Duration::from_millis(34);', 'let timeout = response_time * 25 + Duration::from_millis(34);')]),
 'scan_drop_if': ('P18', [('ping', 'while let Some(response) = self.next() {', 'while let Some(Ok(response)) = self.next() {\n\t\t\tlet response: Result<_, ReadError<SerialPort::Error>> = Ok(response);')]),
 # P19
 'timeout_34': ('P19', [('cli', 'Duration::from_millis(34)', 'Duration::from_micros(3400)')]),
 'timeout_msg': ('P19', [('cli', 'crate::bus::StatusPacket::message_len(expected_parameters as usize) as u32', 'crate::bus::StatusPacket::message_len(expected_parameters as usize) as u8 as u32')]),
 'tt_u32': ('P19', [('bus', 'let subsec_bits = bits % baud_rate;\n\tlet nanos = (subsec_bits * 1_000_000_000).div_ceil(baud_rate);\n\tDuration::new(secs, nanos as u32)', 'let subsec_bits = bits % baud_rate;\n\tlet nanos = (subsec_bits * 1_000_000_000) / baud_rate;\n\tDuration::new(secs, nanos as u32)')]),
 'ts_exp0': ('P19', [('read', 'instruction_id::READ, 4, count, |buffer|', 'instruction_id::READ, 4, 4, |buffer|')]),
}
