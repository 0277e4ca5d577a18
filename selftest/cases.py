N, C, O, CF = "node.go", "controller.go", "options.go", "config.go"
CASES = []
def bug(name, want, *edits): CASES.append((name, list(edits), want.split()))
def ref(name, *edits): CASES.append(("ref_" + name, list(edits), []))

# --- C12
bug("c12_four", "C12", (CF, "if len(c.InputPorts) > 4 {", "if len(c.InputPorts) > 5 {"))
bug("c12_three", "C12", (CF, "if len(c.OutputPorts) > 4 {", "if len(c.OutputPorts) > 3 {"))
bug("c12_skip_last", "C12", (CF, "for i := 0; i < 4; i++ {\n\t\tif len(c.InputPorts) <= i", "for i := 0; i < 3; i++ {\n\t\tif len(c.InputPorts) <= i"))
bug("c12_only_first", "C12", (CF, "if len(c.InputPorts) <= i || len(c.OutputPorts) <= i {\n\t\t\tcontinue", "if len(c.InputPorts) <= i || len(c.OutputPorts) <= i || i == 2 {\n\t\t\tcontinue"))
bug("c12_whole_type", "C12", (CF, "if c.InputPorts[i].Type.Type() != c.OutputPorts[i].Type.Type() {", "if c.InputPorts[i].Type != c.OutputPorts[i].Type {"))
bug("c12_early_flag", "C12", (N, "\tc, err := net.ListenPacket", "\tn.shutdown = false\n\tc, err := net.ListenPacket"))
bug("c12_early_go", "C12", (N, "\tgo n.pollReplyLoop()\n", ""), (N, "\tc, err := net.ListenPacket", "\tgo n.pollReplyLoop()\n\tc, err := net.ListenPacket"))
bug("c12_swallow", "C12", (N, "\t\treturn err\n\t}\n\tn.conn = c.", "\t\treturn nil\n\t}\n\tn.conn = c."))
bug("c12_ctrl_swallow", "C12", (C, "\t\treturn fmt.Errorf(\"failed to start controller node: %v\", err)\n\t}", "\t\tc.log.With(nil).Error(\"failed\")\n\t}"))
bug("c12_ctrl_ticker_first", "C12", (C, "\tc.pollTicker = time.NewTicker(pollInterval)\n", ""), (C, "\tif err := c.cNode.Start(); err != nil {", "\tc.pollTicker = time.NewTicker(pollInterval)\n\tif err := c.cNode.Start(); err != nil {"))
bug("c12_no_validate", "C12", (N, "\tif err := n.Config.validate(); err != nil {\n\t\treturn err\n\t}\n", ""))
# --- C13
bug("c13_break", "C13", (N, "\t\tcase <-n.shutdownCh:\n\t\t\treturn\n\n\t\tcase payload := <-n.sendCh:", "\t\tcase <-n.shutdownCh:\n\t\t\tbreak\n\n\t\tcase payload := <-n.sendCh:"))
bug("c13_plain_send", "C13", (N, "\t\t\tselect {\n\t\t\tcase n.recvCh <- payload:\n\t\t\tcase <-n.shutdownCh:\n\t\t\t\treturn\n\t\t\t}", "\t\t\tn.recvCh <- payload"))
bug("c13_no_flag", "C13", (N, "\t\t\tif n.isShutdown() {\n\t\t\t\treturn\n\t\t\t}\n\n\t\t\tif err != nil {", "\t\t\tif err != nil {"))
bug("c13_flag_late", "C13", (N, "\t\t\tif n.isShutdown() {\n\t\t\t\treturn\n\t\t\t}\n\n\t\t\tif err != nil {\n\t\t\t\tif err == io.EOF {\n\t\t\t\t\treturn\n\t\t\t\t}\n", "\t\t\tif err == nil && n.isShutdown() {\n\t\t\t\treturn\n\t\t\t}\n\n\t\t\tif err != nil {\n\t\t\t\tif err == io.EOF {\n\t\t\t\t\treturn\n\t\t\t\t}\n"))
bug("c13_hoisted", "C13", (N, "\t\tb := make([]byte, 4096)\n", "\t\tb := make([]byte, 4096)\n\t\tstopped := n.isShutdown()\n"), (N, "\t\t\tif n.isShutdown() {\n\t\t\t\treturn\n\t\t\t}\n\n\t\t\tif err != nil {", "\t\t\tif stopped {\n\t\t\t\treturn\n\t\t\t}\n\n\t\t\tif err != nil {"))
bug("c13_no_close", "C13", (N, "\tif n.conn != nil {\n\t\tif err := n.conn.Close(); err != nil {\n\t\t\tn.log.Printf(\"failed to close read socket: %v\")\n\t\t}\n\t}\n", ""))
bug("c13_no_ticker_stop", "C13", (C, "\tc.gcTicker.Stop()\n", ""))
bug("c13_no_local_stop", "C13", (C, "\tdefer ticker.Stop()\n", ""))
bug("c13_no_node_stop", "C13", (C, "\tc.cNode.Stop()\n", ""))
bug("c13_no_signal", "C13", (C, "\tc.cNode.Stop()\n\tclose(c.shutdownCh)\n", "\tc.cNode.Stop()\n"))
bug("c13_poll_ignored", "C13", (N, "\tselect {\n\tcase n.pollCh <- *poll:\n\tcase <-n.shutdownCh:\n\t}", "\tn.pollCh <- *poll"))
bug("c13_reply_nostop", "C13", (N, "\t\t\tselect {\n\t\t\tcase n.sendCh <- netPayload{\n\t\t\t\taddress: n.broadcastAddr,\n\t\t\t\tdata:    me,\n\t\t\t}:\n\t\t\tcase <-n.shutdownCh:\n\t\t\t\treturn\n\t\t\t}", "\t\t\tn.sendCh <- netPayload{\n\t\t\t\taddress: n.broadcastAddr,\n\t\t\t\tdata:    me,\n\t\t\t}"))
bug("c13_dmx_continue", "C13", (C, "\t\t\tc.nodeLock.Unlock()\n\n\t\tcase <-c.shutdownCh:\n\t\t\treturn", "\t\t\tc.nodeLock.Unlock()\n\n\t\tcase <-c.shutdownCh:\n\t\t\tcontinue"))
# --- C16
bug("c16_double_close", "C16", (N, "\tif n.shutdown {\n\t\t// never started, or stopped already\n\t\tn.shutdownLock.Unlock()\n\t\treturn\n\t}\n\tn.shutdown = true\n\tn.shutdownLock.Unlock()\n", "\tif n.shutdown {\n\t\t// never started, or stopped already\n\t\tn.shutdownLock.Unlock()\n\t\treturn\n\t}\n\tn.shutdownLock.Unlock()\n\tn.shutdownLock.Lock()\n\tn.shutdown = true\n\tn.shutdownLock.Unlock()\n"))
bug("c16_nil_close", "C16", (N, "\tn.shutdownCh = make(chan struct{})\n", "\tif n.shutdownCh == nil {\n\t\tn.shutdownCh = make(chan struct{})\n\t}\n"))
bug("c16_ctrl_always", "C16", (C, "\tif !c.running {\n\t\t// never started, or stopped already\n\t\treturn\n\t}\n", "\tif c.shutdownCh == nil {\n\t\treturn\n\t}\n"))
bug("c16_restart", "C16", (N, "\tif !n.shutdown {\n\t\treturn fmt.Errorf(\"node has already been started\")\n\t}\n", ""))
bug("c16_reg_running", "C16", (N, "\tif !n.isShutdown() {\n\t\tn.log.With(Fields{\"opcode\": opcode}).Debugf(\"ignoring callback registration: node has already been started\")\n\t\treturn\n\t}\n\n\tn.callbacks[opcode] = callback", "\tif n.conn != nil {\n\t\treturn\n\t}\n\n\tn.callbacks[opcode] = callback"))
bug("c16_dereg_all", "C16", (N, "\tdelete(n.callbacks, opcode)", "\tdelete(n.callbacks, opcode)\n\tif opcode == code.OpPoll {\n\t\tdelete(n.callbacks, code.OpPollReply)\n\t}"))
bug("c16_reg_keep", "C16", (N, "\tn.callbacks[opcode] = callback", "\tif _, ok := n.callbacks[opcode]; !ok {\n\t\tn.callbacks[opcode] = callback\n\t}"))
bug("c16_opts_late", "C16", (N, "\tfor _, opt := range opts {\n\t\tn.SetOption(opt)\n\t}\n", ""), (N, "\t// initialize required node callbacks\n", "\tfor _, opt := range opts {\n\t\tn.SetOption(opt)\n\t}\n\t// initialize required node callbacks\n"))
bug("c16_flag_false", "C16", (N, "\t\tshutdown:      true,\n", ""))
bug("c16_ctrl_wait", "C16", (C, "\tclose(c.shutdownCh)\n}", "\tc.shutdownCh <- struct{}{}\n\tclose(c.shutdownCh)\n}"))

# --- C17
SEND = "\t\t\tselect {\n\t\t\tcase n.recvCh <- payload:\n\t\t\tcase <-n.shutdownCh:\n\t\t\t\treturn\n\t\t\t}"
bug("c17_alias", "C17", (N, "data:    make([]byte, num),", "data:    b[:num],"), (N, "\t\t\tcopy(payload.data, b)\n", ""))
bug("c17_short", "C17", (N, "data:    make([]byte, num),", "data:    make([]byte, num&1023),"))
bug("c17_long", "C17", (N, "data:    make([]byte, num),", "data:    make([]byte, len(b)),"))
bug("c17_partial_copy", "C17", (N, "copy(payload.data, b)", "copy(payload.data, b[:num/2])"))
bug("c17_shared_pool", "C17", (N, "\t\tb := make([]byte, 4096)\n", "\t\tb := make([]byte, 4096)\n\t\tscratch := make([]byte, 4096)\n"), (N, "data:    make([]byte, num),", "data:    scratch[:num],"))
bug("c17_ring", "C17", (N, "\t\tb := make([]byte, 4096)\n", "\t\tb := make([]byte, 4096)\n\t\tvar ring [8][4096]byte\n\t\tk := 0\n"), (N, "data:    make([]byte, num),", "data:    ring[k%8][:num],"), (N, "\t\t\tcopy(payload.data, b)\n", "\t\t\tk++\n\t\t\tcopy(payload.data, b)\n"))
bug("c17_drop", "C17", (N, SEND, "\t\t\tselect {\n\t\t\tcase n.recvCh <- payload:\n\t\t\tcase <-n.shutdownCh:\n\t\t\t\treturn\n\t\t\tdefault:\n\t\t\t}"))
bug("c17_self_port", "C17", (N, "if n.localAddr.IP.Equal(from.IP) {", "if n.localAddr.IP.Equal(from.IP) && from.Port == n.localAddr.Port {"))
bug("c17_self_listen", "C17", (N, "if n.localAddr.IP.Equal(from.IP) {", "if n.listenAddr.IP.Equal(from.IP) {"))
bug("c17_no_self", "C17", (N, "if n.localAddr.IP.Equal(from.IP) {", "if from == nil {"))
bug("c17_err_data", "C17", (N, "\t\t\t\tn.log.With(Fields{\"src\": from.String(), \"bytes\": num}).Errorf(\"failed to read from socket: %v\", err)\n\t\t\t\tcontinue\n", "\t\t\t\tn.log.With(Fields{\"src\": from.String(), \"bytes\": num}).Errorf(\"failed to read from socket: %v\", err)\n\t\t\t\tif num == 0 {\n\t\t\t\t\treturn\n\t\t\t\t}\n"))
bug("c17_err_nil", "C17", (N, "n.log.With(Fields{\"src\": from.String(), \"bytes\": num}).Errorf(", "n.log.With(Fields{\"src\": from.IP.String(), \"bytes\": num}).Errorf("))
bug("c17_err_return", "C17", (N, "Errorf(\"failed to read from socket: %v\", err)\n\t\t\t\tcontinue", "Errorf(\"failed to read from socket: %v\", err)\n\t\t\t\treturn"))
bug("c17_decode_err_return", "C17", (N, ".Warnf(\"failed to parse packet: %v\", err)\n\t\t\t\tcontinue", ".Warnf(\"failed to parse packet: %v\", err)\n\t\t\t\treturn"))
bug("c17_decode_trim", "C17", (N, "packet.Unmarshal(payload.data)", "packet.Unmarshal(bytes.TrimRight(payload.data, \"\\x00\"))"), (N, "import (\n", "import (\n\t\"bytes\"\n"))
bug("c17_small", "C17", (N, "\t\t\tpayload := netPayload{\n", "\t\t\tif num < 14 {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\tpayload := netPayload{\n"))
bug("c17_twice", "C17", (N, SEND, SEND + "\n\t\t\tif num > 530 {\n\t\t\t\tn.recvCh <- payload\n\t\t\t}"))
bug("c17_copy_before", "C17", (N, "\t\t\tnum, from, err := n.conn.ReadFromUDP(b)\n", "\t\t\tdata := append([]byte(nil), b...)\n\t\t\tnum, from, err := n.conn.ReadFromUDP(b)\n"), (N, "data:    make([]byte, num),", "data:    data[:num],"), (N, "\t\t\tcopy(payload.data, b)\n", ""))
bug("c17_no_reader", "C17", (N, "\tgo n.recvLoop()\n", "\tif n.Config.Type != code.StBackup {\n\t\tgo n.recvLoop()\n\t}\n"))
# --- C18
HP = "\tcallback, ok := n.callbacks[p.GetOpCode()]\n\tif !ok {\n\t\tn.log.With(Fields{\"packet\": p}).Debugf(\"ignoring unhandled packet\")\n\t\treturn\n\t}\n\n\tcallback(p)\n"
bug("c18_inline", "C18", (N, "\t\t\tgo n.handlePacket(p)", "\t\t\tn.handlePacket(p)"))
bug("c18_inline_poll", "C18", (N, "\t\t\tgo n.handlePacket(p)", "\t\t\tif p.GetOpCode() == code.OpPoll {\n\t\t\t\tn.handlePacket(p)\n\t\t\t} else {\n\t\t\t\tgo n.handlePacket(p)\n\t\t\t}"))
bug("c18_twice", "C18", (N, "\t\t\tgo n.handlePacket(p)", "\t\t\tgo n.handlePacket(p)\n\t\t\tif p.GetOpCode() == code.OpSync {\n\t\t\t\tgo n.handlePacket(p)\n\t\t\t}"))
bug("c18_mask", "C18", (N, "n.callbacks[p.GetOpCode()]", "n.callbacks[p.GetOpCode()&0xff00]"))
bug("c18_fallback", "C18", (N, "\tif !ok {\n\t\tn.log.With(Fields{\"packet\": p}).Debugf(\"ignoring unhandled packet\")\n\t\treturn\n\t}\n\n\tcallback(p)", "\tif !ok {\n\t\tcallback, ok = n.callbacks[code.OpOutput]\n\t\tif !ok {\n\t\t\treturn\n\t\t}\n\t}\n\n\tcallback(p)"))
bug("c18_all", "C18", (N, HP, "\tfor op, cb := range n.callbacks {\n\t\tif op == p.GetOpCode() || op == code.OpCode(0) {\n\t\t\tcb(p)\n\t\t}\n\t}\n"))
bug("c18_drop_own", "C18", (N, "\tcallback(p)\n}", "\tif p.GetOpCode() == code.OpDMX && n.Config.Type == code.StController {\n\t\treturn\n\t}\n\tcallback(p)\n}"))
bug("c18_opcode", "C18", ("packet/header.go", "return p.OpCode", "return p.OpCode &^ 0x100"))
bug("c18_err_dispatch", "C18", (N, ".Warnf(\"failed to parse packet: %v\", err)\n\t\t\t\tcontinue", ".Warnf(\"failed to parse packet: %v\", err)\n\t\t\t\tgo n.handlePacket(&packet.ArtPollPacket{})\n\t\t\t\tcontinue"))
bug("c18_mutex", "C18 C15", (N, "\tcallback(p)\n}", "\tn.shutdownLock.Lock()\n\tdefer n.shutdownLock.Unlock()\n\tcallback(p)\n}"))
bug("c18_last", "C18", (N, "\t// loop until shutdown\n\tfor {\n\t\tselect {\n\t\tcase payload := <-n.recvCh:\n\t\t\tp, err := packet.Unmarshal(payload.data)", "\t// loop until shutdown\n\tvar last packet.ArtNetPacket\n\tfor {\n\t\tselect {\n\t\tcase payload := <-n.recvCh:\n\t\t\tp, err := packet.Unmarshal(payload.data)"), (N, "\t\t\tgo n.handlePacket(p)", "\t\t\tif last == nil || last.GetOpCode() != p.GetOpCode() {\n\t\t\t\tlast = p\n\t\t\t}\n\t\t\tgo n.handlePacket(last)"))
bug("c18_capture", "C18", (N, "\t// loop until shutdown\n\tfor {\n\t\tselect {\n\t\tcase payload := <-n.recvCh:\n\t\t\tp, err := packet.Unmarshal(payload.data)", "\t// loop until shutdown\n\tvar p packet.ArtNetPacket\n\tvar err error\n\tfor {\n\t\tselect {\n\t\tcase payload := <-n.recvCh:\n\t\t\tp, err = packet.Unmarshal(payload.data)"), (N, "\t\t\tgo n.handlePacket(p)", "\t\t\tgo func() { n.handlePacket(p) }()"))

# --- C19
REPLY = "\t\t\tselect {\n\t\t\tcase n.sendCh <- netPayload{\n\t\t\t\taddress: n.broadcastAddr,\n\t\t\t\tdata:    me,\n\t\t\t}:\n\t\t\tcase <-n.shutdownCh:\n\t\t\t\treturn\n\t\t\t}\n"
bug("c19_drop_full", "C19", (N, REPLY, REPLY.replace("\t\t\tcase <-n.shutdownCh:\n\t\t\t\treturn\n", "\t\t\tcase <-n.shutdownCh:\n\t\t\t\treturn\n\t\t\tdefault:\n")))
bug("c19_reply_twice", "C19", (N, REPLY, REPLY + REPLY))
bug("c19_reply_listen", "C19 C24", (N, "address: n.broadcastAddr,", "address: n.listenAddr,"))
bug("c19_reply_default", "C19 C24", (N, "address: n.broadcastAddr,", "address: defaultBroadcastAddr,"))
bug("c19_reply_part", "C19", (N, "data:    me,", "data:    me[:len(me)-1],"))
bug("c19_handler_drop", "C19", (N, "\tselect {\n\tcase n.pollCh <- *poll:\n\tcase <-n.shutdownCh:\n\t}", "\tselect {\n\tcase n.pollCh <- *poll:\n\tcase <-n.shutdownCh:\n\tdefault:\n\t}"))
bug("c19_handler_prio", "C19", (N, "\tselect {\n\tcase n.pollCh <- *poll:", "\tif poll.Priority > code.DpHigh {\n\t\treturn\n\t}\n\tselect {\n\tcase n.pollCh <- *poll:"))
bug("c19_handlers_swapped", "C19", (N, "code.OpPoll:      n.handlePacketPoll,", "code.OpPoll:      n.handlePacketPollReply,"))
bug("c19_no_handler", "C19", (N, "\t\tcode.OpPollReply: n.handlePacketPollReply,\n", ""))
bug("c19_debounce", "C19", (N, "\t// loop until shutdown\n\tfor {\n\t\tselect {\n\t\tcase <-timer.C:", "\tvar last time.Time\n\t// loop until shutdown\n\tfor {\n\t\tselect {\n\t\tcase <-timer.C:"), (N, "\t\t\t// reply with pollReply\n", "\t\t\tif time.Since(last) < time.Second {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\tlast = time.Now()\n"))
bug("c19_drain", "C19", (N, "\t\t\t// reply with pollReply\n", "\t\t\tfor len(n.pollCh) > 0 {\n\t\t\t\t<-n.pollCh\n\t\t\t}\n"))
bug("c19_any_style", "C19", (N, "if n.Config.Type == code.StController {", "if n.Config.Type != code.StNode {"))
bug("c19_reply_lossy", "C19", (N, "\t\tcase n.pollReplyCh <- *pollReply:\n\t\tcase <-n.shutdownCh:\n", "\t\tcase n.pollReplyCh <- *pollReply:\n\t\tcase <-n.shutdownCh:\n\t\tcase <-time.After(time.Second):\n"))
bug("c19_poll_own_skip", "C19", (C, "\t\tselect {\n\t\tcase c.cNode.pollCh <- packet.ArtPollPacket{}:\n\t\tcase <-c.shutdownCh:\n\t\t\treturn false\n\t\t}\n", "\t\tselect {\n\t\tcase c.cNode.pollCh <- packet.ArtPollPacket{}:\n\t\tcase <-c.shutdownCh:\n\t\t\treturn false\n\t\tdefault:\n\t\t}\n"))
bug("c19_poll_cond", "C19", (C, "\t\t\t// send ArtPollPacket\n\t\t\tif !poll() {\n\t\t\t\treturn\n\t\t\t}\n", "\t\t\t// send ArtPollPacket\n\t\t\tif len(c.cNode.sendCh) == 0 && !poll() {\n\t\t\t\treturn\n\t\t\t}\n"))
bug("c19_poll_late", "C19", (C, "\t// send ArtPollPacket\n\tif !poll() {\n\t\treturn\n\t}\n\n", ""))
bug("c19_interval", "C19", (C, "var pollInterval = 3 * time.Second", "var pollInterval = 4 * time.Second"), (C, "c.gcTicker = time.NewTicker(pollInterval)", "c.gcTicker = time.NewTicker(3 * time.Second)"))
bug("c19_poll_addr", "C19 C24", (C, "address: c.broadcastAddr,", "address: defaultBroadcastAddr,"))
bug("c19_poll_addr2", "C19 C24", (C, "address: c.broadcastAddr,", "address: net.UDPAddr{IP: c.broadcastAddr.IP, Port: packet.ArtNetPort},"))
bug("c19_ctrl_noout", "C19", (C, "if cfg.Type == code.StController && len(cfg.OutputPorts) == 0 {", "if cfg.Type == code.StController && len(cfg.OutputPorts)+len(cfg.InputPorts) == 0 {"))
bug("c19_media", "C19", (C, "if cfg.Type != code.StNode && cfg.Type != code.StController {", "if cfg.Type != code.StNode && cfg.Type != code.StController && cfg.Type != code.StMedia {"))
bug("c19_node_noout", "C19", (C, "if cfg.Type == code.StController && len(cfg.OutputPorts) == 0 {", "if len(cfg.OutputPorts) == 0 {"))
bug("c19_send_once", "C19", (N, "\t\t\t\tn.log.With(Fields{\"error\": err}).Debugf(\"error writing packet\")\n\t\t\t\tcontinue", "\t\t\t\tn.log.With(Fields{\"error\": err}).Debugf(\"error writing packet\")\n\t\t\t\treturn"))
bug("c19_send_retry", "C19", (N, "\t\t\tnum, err := n.conn.WriteToUDP(payload.data, &payload.address)\n", "\t\t\tnum, err := n.conn.WriteToUDP(payload.data, &payload.address)\n\t\t\tif num == 0 {\n\t\t\t\tnum, err = n.conn.WriteToUDP(payload.data, &payload.address)\n\t\t\t}\n"))
bug("c19_reply_shared", "C19", (N, "\t\t\t// TODO: if we are asked", "\t\t\tme[0x6b]++\n\t\t\t// TODO: if we are asked"))
bug("c19_config_early", "C19", (N, "p := ArtPollReplyFromConfig(n.Config)", "p := ArtPollReplyFromConfig(NodeConfig{Name: n.Config.Name, IP: n.Config.IP, Type: n.Config.Type, OutputPorts: n.Config.OutputPorts})"))
bug("c19_enc_poll", "C19 C05", ("packet/artpoll.go", "p.OpCode = code.OpPoll\n", "p.OpCode = code.OpPollReply\n"))
ref("c19_reply_fresh", (N, "\t// create an ArtPollReply packet to send out in response to an ArtPoll packet\n\tp := ArtPollReplyFromConfig(n.Config)\n\tme, err := p.MarshalBinary()\n\tif err != nil {\n\t\tn.log.With(Fields{\"err\": err}).Error(\"error creating ArtPollReply packet for self\")\n\t\treturn\n\t}\n", ""), (N, "\t\t\t// reply with pollReply\n", "\t\t\tme, err := ArtPollReplyFromConfig(n.Config).MarshalBinary()\n\t\t\tif err != nil {\n\t\t\t\tcontinue\n\t\t\t}\n"))
ref("c19_reply_helper", (N, REPLY, "\t\t\tif !n.reply(me) {\n\t\t\t\treturn\n\t\t\t}\n"), (N, "", "\nfunc (n *Node) reply(b []byte) bool {\n\tpl := netPayload{data: b}\n\tpl.address = n.broadcastAddr\n\tselect {\n\tcase <-n.shutdownCh:\n\t\treturn false\n\tcase n.sendCh <- pl:\n\t}\n\treturn true\n}\n"))
ref("c19_switch", (C, "\t\t\tif cfg.Type != code.StNode && cfg.Type != code.StController {\n", "\t\t\tswitch cfg.Type {\n\t\t\tcase code.StNode, code.StController:\n\t\t\tdefault:\n"))
ref("c19_poll_method", (C, "\tpoll := func() bool {\n\t\tselect {\n\t\tcase c.cNode.sendCh <- netPayload{\n\t\t\taddress: c.broadcastAddr,\n\t\t\tdata:    b,\n\t\t}:\n\t\tcase <-c.shutdownCh:\n\t\t\treturn false\n\t\t}\n\t\tselect {\n\t\tcase c.cNode.pollCh <- packet.ArtPollPacket{}:\n\t\tcase <-c.shutdownCh:\n\t\t\treturn false\n\t\t}\n\t\treturn true\n\t}\n", "\tpoll := func() bool { return c.poll(b) }\n"), (C, "", "\nfunc (c *Controller) poll(b []byte) bool {\n\tp := netPayload{address: c.broadcastAddr, data: b}\n\tselect {\n\tcase <-c.shutdownCh:\n\t\treturn false\n\tcase c.cNode.sendCh <- p:\n\t}\n\tselect {\n\tcase <-c.shutdownCh:\n\t\treturn false\n\tcase c.cNode.pollCh <- packet.ArtPollPacket{}:\n\t\treturn true\n\t}\n}\n"))
ref("c19_accept_fn", (C, "\t\t\tif cfg.Type != code.StNode && cfg.Type != code.StController {\n\t\t\t\t// we don't care for ArtNet devices other then nodes and controllers for now @todo\n\t\t\t\tcontinue\n\t\t\t}\n\n\t\t\tif cfg.Type == code.StController && len(cfg.OutputPorts) == 0 {", "\t\t\tif !wanted(cfg) {"), (C, "", "\nfunc wanted(cfg NodeConfig) bool {\n\treturn cfg.Type == code.StNode || cfg.Type == code.StController && len(cfg.OutputPorts) > 0\n}\n"))
ref("c19_sendloop_write", (N, "\t\t\tnum, err := n.conn.WriteToUDP(payload.data, &payload.address)\n\t\t\tif err != nil {\n\t\t\t\tn.log.With(Fields{\"error\": err}).Debugf(\"error writing packet\")\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\tn.log.With(Fields{\"dst\": payload.address.String(), \"bytes\": num}).Debugf(\"packet sent\")\n", "\t\t\tn.write(payload)\n"), (N, "", "\nfunc (n *Node) write(pl netPayload) {\n\tdst := pl.address\n\tif num, err := n.conn.WriteTo(pl.data, &dst); err != nil {\n\t\tn.log.With(Fields{\"error\": err}).Debugf(\"error writing packet\")\n\t} else {\n\t\tn.log.With(Fields{\"dst\": dst.String(), \"bytes\": num}).Debugf(\"packet sent\")\n\t}\n}\n"))
ref("c19_ticks_order", (C, "\tc.pollTicker = time.NewTicker(pollInterval)\n\tc.gcTicker = time.NewTicker(pollInterval)\n\tc.running = true\n", "\tc.running = true\n\tc.gcTicker = time.NewTicker(pollInterval)\n\tc.pollTicker = time.NewTicker(pollInterval)\n"))

# --- C24
bug("c24_own_bcast", "C24", (O, "return NodeBroadcastAddress(addr)(c.cNode)", "if addr.Port != packet.ArtNetPort {\n\t\t\treturn nil\n\t\t}\n\t\treturn NodeBroadcastAddress(addr)(c.cNode)"))
bug("c24_ctl_bcast", "C24", (O, "\t\tc.broadcastAddr = addr\n", "\t\tif c.broadcastAddr.IP.Equal(defaultBroadcastAddr.IP) {\n\t\t\tc.broadcastAddr.IP = addr.IP\n\t\t}\n"))
bug("c24_listen_port", "C24", (O, "\t\tn.listenAddr = addr\n", "\t\tn.listenAddr = addr\n\t\tn.listenAddr.Port = packet.ArtNetPort\n"))
bug("c24_listen_ip_zone", "C24", (O, "n.listenAddr = net.UDPAddr{IP: ip, Port: packet.ArtNetPort}", "n.listenAddr = net.UDPAddr{IP: ip, Port: packet.ArtNetPort + n.broadcastAddr.Port - n.localAddr.Port}"))
bug("c24_listen_ip_keep", "C24", (O, "n.listenAddr = net.UDPAddr{IP: ip, Port: packet.ArtNetPort}", "if n.listenAddr.IP == nil {\n\t\t\tn.listenAddr = net.UDPAddr{IP: ip, Port: packet.ArtNetPort}\n\t\t}"))
bug("c24_listen_ip_local", "C24", (O, "n.listenAddr = net.UDPAddr{IP: ip, Port: packet.ArtNetPort}", "n.listenAddr = net.UDPAddr{IP: ip, Port: packet.ArtNetPort}\n\t\tn.Config.IP = ip"))
bug("c24_fps_zero", "C24", (O, "if fps < 1 || time.Duration(fps) > time.Second {", "if fps < 1 || time.Duration(fps) > time.Second {\n\t\t\tc.maxFPS = 1"))
bug("c24_fps_reset", "C24", (O, "if fps < 1 || time.Duration(fps) > time.Second {", "if fps < 1 || time.Duration(fps) > time.Second {\n\t\t\tc.maxFPS = 1000"))
bug("c24_fps_neg", "C24", (O, "if fps < 1 || time.Duration(fps) > time.Second {", "if fps == 0 || fps == -1 || time.Duration(fps) > time.Second {"))
bug("c24_fps_ok", "C24", (O, "\t\t\treturn fmt.Errorf(\"invalid maximum amount of updates per second: %d\", fps)", "\t\t\t_ = fmt.Sprint(fps)\n\t\t\treturn nil"))
bug("c24_fps_clamp", "C24", (O, "\t\tc.maxFPS = fps\n", "\t\tif fps > 44 {\n\t\t\tfps = 44\n\t\t}\n\t\tc.maxFPS = fps\n"))
bug("c24_fps_ms", "C24", (C, "time.NewTicker(fpsInterval)", "time.NewTicker(fpsInterval/time.Millisecond*time.Millisecond + 1)"))
bug("c24_fps_default", "C24", (C, "maxFPS:        1000,", "maxFPS:        100,"))
bug("c24_def_bcast", "C24", (C, "IP:   []byte{0x02, 0xff, 0xff, 0xff},", "IP:   []byte{0x0a, 0xff, 0xff, 0xff},"))
bug("c24_def_port", "C24", (N, "listenAddr:    net.UDPAddr{Port: packet.ArtNetPort},", "listenAddr:    net.UDPAddr{IP: ip, Port: packet.ArtNetPort},"))
bug("c24_bind_local", "C24", (N, "net.ListenPacket(\"udp4\", n.listenAddr.String())", "net.ListenPacket(\"udp4\", n.localAddr.String())"))
bug("c24_bind_port", "C24", (N, "net.ListenPacket(\"udp4\", n.listenAddr.String())", "net.ListenPacket(\"udp4\", fmt.Sprintf(\":%d\", n.listenAddr.Port))"))
bug("c24_overwrite", "C24", (C, "\tc.shutdownCh = make(chan struct{})\n\tc.cNode.log", "\tc.shutdownCh = make(chan struct{})\n\tc.cNode.broadcastAddr = c.broadcastAddr\n\tc.cNode.listenAddr.IP = nil\n\tc.cNode.log"))
bug("c24_opts_reset", "C24", (N, "\tn.Config.IP = ip\n", "\tn.Config.IP = ip\n\tn.listenAddr.Port = packet.ArtNetPort\n"))
bug("c24_set_swallow", "C24", (O, "func (c *Controller) SetOption(option Option) error {\n\treturn option(c)", "func (c *Controller) SetOption(option Option) error {\n\tif err := option(c); err != nil {\n\t\tc.log.Printf(\"option: %v\", err)\n\t}\n\treturn nil"))
ref("c24_listen_udp", (N, "\tc, err := net.ListenPacket(\"udp4\", n.listenAddr.String())", "\tc, err := net.ListenUDP(\"udp4\", &n.listenAddr)"), (N, "n.conn = c.(*net.UDPConn)", "n.conn = c"))
ref("c24_ctl_options", (O, "\t\treturn NodeListenAddress(addr)(c.cNode)\n", "\t\treturn c.cNode.SetOption(NodeListenAddress(addr))\n"), (O, "\t\tc.broadcastAddr = addr\n\t\treturn NodeBroadcastAddress(addr)(c.cNode)", "\t\tif err := c.cNode.SetOption(NodeBroadcastAddress(addr)); err != nil {\n\t\t\treturn err\n\t\t}\n\t\tc.broadcastAddr = addr\n\t\treturn nil"))
ref("c24_fps_check", (O, "\t\tif fps < 1 || time.Duration(fps) > time.Second {\n\t\t\treturn fmt.Errorf(\"invalid maximum amount of updates per second: %d\", fps)\n\t\t}\n\t\tc.maxFPS = fps\n\t\treturn nil", "\t\tif fps >= 1 && fps <= int(time.Second) {\n\t\t\tc.maxFPS = fps\n\t\t\treturn nil\n\t\t}\n\t\treturn fmt.Errorf(\"invalid maximum amount of updates per second: %d\", fps)"))
ref("c24_default_fn", (C, "var defaultBroadcastAddr = net.UDPAddr{\n\tIP:   []byte{0x02, 0xff, 0xff, 0xff},", "var defaultBroadcastAddr = net.UDPAddr{\n\tIP:   net.IPv4(2, 255, 255, 255),"))
ref("c24_default_ip", (C, "\tIP:   []byte{0x02, 0xff, 0xff, 0xff},", "\tIP:   net.IP{2, 255, 255, 255},"))
ref("c24_interval_field", (C, "\tmaxFPS int\n", "\tmaxFPS int\n\ttick   time.Duration\n"), (C, "\tticker := time.NewTicker(fpsInterval)\n", "\tc.tick = fpsInterval\n\tticker := time.NewTicker(c.tick)\n"))
ref("c24_interval_ns", (C, "time.NewTicker(fpsInterval)", "time.NewTicker(time.Duration(int64(time.Second) / int64(c.maxFPS)))"))
ref("c24_start_order", (C, "\t\tlog:           log,\n\t\tmaxFPS:        1000,\n", "\t\tlog:           log,\n\t\tmaxFPS:        defaultFPS,\n"), (C, "", "\nconst defaultFPS = 1000\n"))

# --- refactorings
ref("stop_defer", (N, """	n.shutdownLock.Lock()
	if n.shutdown {
		// never started, or stopped already
		n.shutdownLock.Unlock()
		return
	}
	n.shutdown = true
	n.shutdownLock.Unlock()
	close(n.shutdownCh)
	if n.conn != nil {
		if err := n.conn.Close(); err != nil {
			n.log.Printf("failed to close read socket: %v")
		}
	}
}""", """	if !n.markStopped() {
		return
	}
	close(n.shutdownCh)
	if n.conn == nil {
		return
	}
	err := n.conn.Close()
	if err != nil {
		n.log.Printf("failed to close read socket: %v")
	}
}

func (n *Node) markStopped() bool {
	n.shutdownLock.Lock()
	defer n.shutdownLock.Unlock()
	was := n.shutdown
	n.shutdown = true
	return !was
}"""))
ref("validate_helper", (CF, """	for i := 0; i < 4; i++ {
		if len(c.InputPorts) <= i || len(c.OutputPorts) <= i {
			continue
		}
		if c.InputPorts[i].Type.Type() != c.OutputPorts[i].Type.Type() {""", """	for i, in := range c.InputPorts {
		if i >= len(c.OutputPorts) {
			break
		}
		if in.Type.Type() != c.OutputPorts[i].Type.Type() {"""))
ref("validate_min", (CF, """	for i := 0; i < 4; i++ {
		if len(c.InputPorts) <= i || len(c.OutputPorts) <= i {
			continue
		}
""", """	n := len(c.InputPorts)
	if len(c.OutputPorts) < n {
		n = len(c.OutputPorts)
	}
	for i := 0; i < n; i++ {
"""))
ref("start_launch", (N, "\tgo n.pollReplyLoop()\n\tgo n.recvLoop()\n\tgo n.sendLoop()\n", "\tn.launch()\n"), (N, "", "\nfunc (n *Node) launch() {\n\tgo n.sendLoop()\n\tgo n.recvLoop()\n\tgo n.pollReplyLoop()\n}\n"))
ref("send_label", (N, """	for {
		select {
		case <-n.shutdownCh:
			return

		case payload := <-n.sendCh:""", """loop:
	for {
		select {
		case <-n.shutdownCh:
			break loop

		case payload := <-n.sendCh:"""))
ref("send_write_helper", (N, """			num, err := n.conn.WriteToUDP(payload.data, &payload.address)
			if err != nil {
				n.log.With(Fields{"error": err}).Debugf("error writing packet")
				continue
			}
			n.log.With(Fields{"dst": payload.address.String(), "bytes": num}).Debugf("packet sent")
""", """			n.transmit(payload)
"""), (N, "", """
func (n *Node) transmit(p netPayload) {
	num, err := n.conn.WriteToUDP(p.data, &p.address)
	if err == nil {
		n.log.With(Fields{"dst": p.address.String(), "bytes": num}).Debugf("packet sent")
	} else {
		n.log.With(Fields{"error": err}).Debugf("error writing packet")
	}
}
"""))
ref("recv_named", (N, "\tgo func() {\n\t\tb := make([]byte, 4096)", "\tgo n.readLoop()\n\n\tn.dispatchLoop()\n}\n\nfunc (n *Node) readLoop() {\n\t\tb := make([]byte, 4096)"),
    (N, "\t\t\tcase <-n.shutdownCh:\n\t\t\t\treturn\n\t\t\t}\n\t\t}\n\t}()\n\n\t// loop until shutdown\n", "\t\t\tcase <-n.shutdownCh:\n\t\t\t\treturn\n\t\t\t}\n\t\t}\n\t}\n\nfunc (n *Node) dispatchLoop() {\n"))
ref("recv_append", (N, """				data:    make([]byte, num),
			}
			copy(payload.data, b)""", """				data:    append([]byte(nil), b[:num]...),
			}"""))
ref("recv_copy_loop", (N, """				data:    make([]byte, num),
			}
			copy(payload.data, b)""", """				data:    make([]byte, num),
			}
			for i := range payload.data {
				payload.data[i] = b[i]
			}"""))
ref("reg_invert", (N, """	if !n.isShutdown() {
		n.log.With(Fields{"opcode": opcode}).Debugf("ignoring callback registration: node has already been started")
		return
	}

	n.callbacks[opcode] = callback""", """	if n.isShutdown() {
		n.callbacks[opcode] = callback
	} else {
		n.log.With(Fields{"opcode": opcode}).Debugf("ignoring callback registration: node has already been started")
	}"""))
ref("reg_locked", (N, """	if !n.isShutdown() {
		n.log.With(Fields{"opcode": opcode}).Debugf("ignoring callback registration: node has already been started")
		return
	}

	n.callbacks[opcode] = callback""", """	n.shutdownLock.Lock()
	defer n.shutdownLock.Unlock()
	if !n.shutdown {
		return
	}
	n.callbacks[opcode] = callback"""))
ref("rename", (N, "func (n *Node) handlePacket(", "func (n *Node) deliver("), (N, "go n.handlePacket(p)", "go n.deliver(p)"))
ref("handle_if", (N, """	callback, ok := n.callbacks[p.GetOpCode()]
	if !ok {
		n.log.With(Fields{"packet": p}).Debugf("ignoring unhandled packet")
		return
	}

	callback(p)""", """	op := p.GetOpCode()
	if callback, ok := n.callbacks[op]; ok {
		callback(p)
		return
	}
	n.log.With(Fields{"packet": p}).Debugf("ignoring unhandled packet")"""))
ref("ctrl_stop_order", (C, "\tc.pollTicker.Stop()\n\tc.gcTicker.Stop()\n\tc.cNode.Stop()\n\tclose(c.shutdownCh)\n", "\tclose(c.shutdownCh)\n\tc.cNode.Stop()\n\tc.gcTicker.Stop()\n\tc.pollTicker.Stop()\n"))
ref("poll_method", (C, """	poll := func() bool {
		select {
		case c.cNode.sendCh <- netPayload{
			address: c.broadcastAddr,
			data:    b,
		}:
		case <-c.shutdownCh:
			return false
		}
		select {
		case c.cNode.pollCh <- packet.ArtPollPacket{}:
		case <-c.shutdownCh:
			return false
		}
		return true
	}
""", """	poll := func() bool { return c.sendPoll(b) }
"""), (C, "", """
func (c *Controller) sendPoll(b []byte) bool {
	msg := netPayload{data: b, address: c.broadcastAddr}
	select {
	case <-c.shutdownCh:
		return false
	case c.cNode.sendCh <- msg:
	}
	select {
	case <-c.shutdownCh:
		return false
	case c.cNode.pollCh <- packet.ArtPollPacket{}:
		return true
	}
}
"""))
ref("poll_accept", (C, """			if cfg.Type != code.StNode && cfg.Type != code.StController {
				// we don't care for ArtNet devices other then nodes and controllers for now @todo
				continue
			}

			if cfg.Type == code.StController && len(cfg.OutputPorts) == 0 {
				// we don't care for controllers which do not have output ports for now // @todo
				// otherwise we simply treat controllers like nodes unless controller to controller
				// communication is implemented according to Art-Net specification
				continue
			}

			if err := c.updateNode(cfg); err != nil {
				c.log.With(Fields{"err": err}).Error("error updating node")
			}
""", """			c.handleReply(cfg)
"""), (C, "", """
func (c *Controller) handleReply(cfg NodeConfig) {
	switch cfg.Type {
	case code.StNode:
	case code.StController:
		if len(cfg.OutputPorts) < 1 {
			return
		}
	default:
		return
	}
	err := c.updateNode(cfg)
	if err != nil {
		c.log.With(Fields{"err": err}).Error("error updating node")
	}
}
"""))
ref("gc_loop", (C, """start:
	for i := range c.Nodes {
		if c.Nodes[i].LastSeen.Add(staleAfter).Before(time.Now()) {""", """	for i := 0; i < len(c.Nodes); {
		if !c.Nodes[i].LastSeen.Add(staleAfter).Before(time.Now()) {
			i++
			continue
		}
		{"""), (C, "\t\t\tc.Nodes = append(c.Nodes[:i], c.Nodes[i+1:]...)\n\t\t\tgoto start\n", "\t\t\tc.Nodes = append(c.Nodes[:i], c.Nodes[i+1:]...)\n"))
ref("gc_since", (C, "if c.Nodes[i].LastSeen.Add(staleAfter).Before(time.Now()) {", "if time.Since(c.Nodes[i].LastSeen) > staleAfter {"))
ref("gc_now_hoisted", (C, "start:\n", "\tnow := time.Now()\nstart:\n"), (C, "if c.Nodes[i].LastSeen.Add(staleAfter).Before(time.Now()) {", "if now.After(c.Nodes[i].LastSeen.Add(staleAfter)) {"))
UNREF = """			// remove references to this node from the output map
			for _, port := range c.Nodes[i].Node.OutputPorts {
				delete(c.OutputAddress, port.Address)
			}
			for _, port := range c.Nodes[i].Node.InputPorts {
				delete(c.InputAddress, port.Address)
			}
"""
ref("unref_helper", (C, UNREF, "\t\t\tc.unref(c.Nodes[i])\n"), (C, UNREF, "\t\t\tc.unref(c.Nodes[i])\n"), (C, UNREF, "\t\t\tc.unref(c.Nodes[i])\n"), (C, "", """
func (c *Controller) unref(cn *ControlledNode) {
	for _, port := range cn.Node.OutputPorts {
		delete(c.OutputAddress, port.Address)
	}
	for _, port := range cn.Node.InputPorts {
		delete(c.InputAddress, port.Address)
	}
}
"""))
ref("find_helper", (C, """	for i := range c.Nodes {
		if bytes.Equal(node.IP, c.Nodes[i].Node.IP) {
			// node found""", """	i := c.find(node.IP)
	if i >= 0 {
		{
			// node found"""), (C, "", """
func (c *Controller) find(ip net.IP) int {
	for i, n := range c.Nodes {
		if bytes.Equal(ip, n.Node.IP) {
			return i
		}
	}
	return -1
}
"""))
ref("update_local", (C, "\t\t\tc.Nodes[i].Node = cfg\n\t\t\tc.Nodes[i].LastSeen = time.Now()\n", "\t\t\tcn := c.Nodes[i]\n\t\t\tcn.LastSeen = time.Now()\n\t\t\tcn.Node = cfg\n"),
    (C, """			for _, port := range c.Nodes[i].Node.OutputPorts {
				if c.Nodes[i].DMXBuffer[port.Address] == nil {
					c.Nodes[i].DMXBuffer[port.Address] = &dmxBuffer{}
				}
				c.OutputAddress[port.Address] = c.Nodes[i]
			}
			for _, port := range c.Nodes[i].Node.InputPorts {
				c.InputAddress[port.Address] = c.Nodes[i]
			}
""", """			for _, port := range cfg.OutputPorts {
				if _, ok := cn.DMXBuffer[port.Address]; !ok {
					cn.DMXBuffer[port.Address] = new(dmxBuffer)
				}
				c.OutputAddress[port.Address] = cn
			}
			for j := range cfg.InputPorts {
				c.InputAddress[cfg.InputPorts[j].Address] = cn
			}
"""))
ref("dmx_local", (C, """				if node.DMXBuffer[address] == nil {
					node.DMXBuffer[address] = &dmxBuffer{}
				}
				// only update if it has been X seconds, ticks can come a little early
				if node.DMXBuffer[address].Stale && node.DMXBuffer[address].LastUpdate.Before(now.Add(-fpsInterval/2)) {
					err := update(node, address, now)
					if err != nil {
						c.log.With(Fields{"err": err, "address": address.String()}).Error("error getting buffer for address")
						continue
					}
				}
				if node.DMXBuffer[address].LastUpdate.Before(now.Add(-forceUpdate)) {
""", """				buf := node.DMXBuffer[address]
				if buf == nil {
					buf = &dmxBuffer{}
					node.DMXBuffer[address] = buf
				}
				// only update if it has been X seconds
				fresh := buf.Stale && buf.LastUpdate.Before(now.Add(-fpsInterval/2))
				if fresh || buf.LastUpdate.Before(now.Add(-forceUpdate)) {
"""))
ref("dmx_method", (C, "\t\t\tfor address, node := range c.OutputAddress {\n", "\t\t\tfor address := range c.OutputAddress {\n\t\t\t\tnode := c.OutputAddress[address]\n"))
ref("senddmx", (C, """	var cn *ControlledNode
	var ok bool

	if cn, ok = c.OutputAddress[address]; !ok {
		c.log.With(Fields{"address": address.String()}).Error("could not find node for address")
		return
	}
	err := cn.setDMXBuffer(dmx, address)
	if err != nil {
		c.log.With(Fields{"err": err, "address": address.String()}).Error("error setting buffer on address")
		return
	}
""", """	cn, ok := c.OutputAddress[address]
	if ok {
		if err := cn.setDMXBuffer(dmx, address); err != nil {
			c.log.With(Fields{"err": err, "address": address.String()}).Error("error setting buffer on address")
		}
		return
	}
	c.log.With(Fields{"address": address.String()}).Error("could not find node for address")
"""))
ref("setbuf", (C, """	buf.Data = dmx
	buf.Stale = true

	return nil""", """	for i := range dmx {
		buf.Data[i] = dmx[i]
	}
	buf.Stale = true

	return nil"""))
ref("setbuf_copy", (C, "\tbuf.Data = dmx\n", "\tcopy(buf.Data[:], dmx[:])\n"))
ref("seq", (C, """	cn.Sequence++
	if cn.Sequence == 0 {
		// zero would disable resequencing
		cn.Sequence = 1
	}
""", """	if cn.Sequence == 255 {
		cn.Sequence = 0
	}
	cn.Sequence++
"""))
ref("seq_local", (C, """	cn.Sequence++
	if cn.Sequence == 0 {
		// zero would disable resequencing
		cn.Sequence = 1
	}
""", """	next := cn.Sequence + 1
	if next == 0 {
		next = 1
	}
	cn.Sequence = next
"""))
ref("dispatch_closure", (N, "\t\t\tgo n.handlePacket(p)", "\t\t\tgo func() {\n\t\t\t\tn.handlePacket(p)\n\t\t\t}()"))
ref("dispatch_closure_arg", (N, "\t\t\tgo n.handlePacket(p)", "\t\t\tgo func(pkt packet.ArtNetPacket) {\n\t\t\t\tn.handlePacket(pkt)\n\t\t\t}(p)"))
ref("recv_decode_helper", (N, "\t\t\tp, err := packet.Unmarshal(payload.data)\n", "\t\t\tp, err := n.decode(payload)\n"), (N, "", "\nfunc (n *Node) decode(payload netPayload) (packet.ArtNetPacket, error) {\n\treturn packet.Unmarshal(payload.data)\n}\n"))
ref("recv_self_helper", (N, "if n.localAddr.IP.Equal(from.IP) {", "if n.isOwn(from) {"), (N, "", "\nfunc (n *Node) isOwn(a *net.UDPAddr) bool {\n\treturn a.IP.Equal(n.localAddr.IP)\n}\n"))
ref("recv_data_first", (N, "\t\t\tpayload := netPayload{\n\t\t\t\taddress: *from,\n\t\t\t\terr:     err,\n\t\t\t\tdata:    make([]byte, num),\n\t\t\t}\n\t\t\tcopy(payload.data, b)\n", "\t\t\tdata := make([]byte, num)\n\t\t\tcopy(data, b[:num])\n\t\t\tpayload := netPayload{address: *from, data: data}\n"))
ref("recv_err_split", (N, "\t\t\tif err != nil {\n\t\t\t\tif err == io.EOF {\n\t\t\t\t\treturn\n\t\t\t\t}\n\n", "\t\t\tif err == io.EOF {\n\t\t\t\treturn\n\t\t\t}\n\t\t\tif err != nil {\n"))
ref("recv_buf_inside", (N, "\t\tb := make([]byte, 4096)\n\t\tfor {\n", "\t\tfor {\n\t\t\tb := make([]byte, 4096)\n"))

# ---- C20, C21
SEQ = """	cn.Sequence++
	if cn.Sequence == 0 {
		// zero would disable resequencing
		cn.Sequence = 1
	}
"""
DUE = "node.DMXBuffer[address].Stale && node.DMXBuffer[address].LastUpdate.Before(now.Add(-fpsInterval/2))"
FORCE = "node.DMXBuffer[address].LastUpdate.Before(now.Add(-forceUpdate))"
HAND = """		select {
		case c.cNode.sendCh <- netPayload{
			address: node.UDPAddress,
			data:    b,
		}:
		case <-c.shutdownCh:
		}
		return nil
"""
NOTE = "		node.DMXBuffer[address].LastUpdate = now\n		node.DMXBuffer[address].Stale = false\n"
bug("c20_all_nodes", "C20", (C, "\terr := cn.setDMXBuffer(dmx, address)\n", "\tfor _, other := range c.OutputAddress {\n\t\tother.setDMXBuffer(dmx, address)\n\t}\n\terr := cn.setDMXBuffer(dmx, address)\n"))
bug("c20_partial", "C20", (C, "\tbuf.Data = dmx\n", "\tcopy(buf.Data[:511], dmx[:])\n"))
bug("c20_nostale", "C20 C21", (C, "\tbuf.Stale = true\n", "\tbuf.Stale = buf.Data != dmx\n"), (C, "\tbuf.Data = dmx\n", ""), (C, "\tbuf.Stale = buf.Data != dmx\n", "\tbuf.Stale = buf.Data != dmx\n\tbuf.Data = dmx\n"))
bug("c20_swap_universe", "C20", (C, "\t\tSubUni:   address.SubUni,\n\t\tNet:      address.Net,\n", "\t\tSubUni:   address.SubUni & 0x0f,\n\t\tNet:      address.Net,\n"))
bug("c20_dest_bcast", "C20", (C, "\t\t\taddress: node.UDPAddress,\n", "\t\t\taddress: c.broadcastAddr,\n"))
bug("c20_dest_port", "C20", (C, "UDPAddress: net.UDPAddr{IP: cfg.IP, Port: packet.ArtNetPort}", "UDPAddress: net.UDPAddr{IP: cfg.IP, Port: int(cfg.Port)}"))
bug("c20_dest_bindip", "C20", (C, "UDPAddress: net.UDPAddr{IP: cfg.IP, Port: packet.ArtNetPort}", "UDPAddress: net.UDPAddr{IP: cfg.BindIP, Port: packet.ArtNetPort}"))
bug("c20_refresh_addr", "C20", (C, "\t\t\tc.Nodes[i].LastSeen = time.Now()\n", "\t\t\tc.Nodes[i].LastSeen = time.Now()\n\t\t\tc.Nodes[i].UDPAddress.IP = cfg.BindIP\n"))
bug("c20_first_buffer", "C20", (C, "\t\tData:     buf.Data,\n", "\t\tData:     cn.DMXBuffer[Address{Net: address.Net, SubUni: address.SubUni &^ 1}].Data,\n"), (C, "\tif buf, ok = cn.DMXBuffer[address]; !ok {\n\t\treturn nil, ", "\tif cn.DMXBuffer[Address{Net: address.Net, SubUni: address.SubUni &^ 1}] == nil {\n\t\treturn nil, nil\n\t}\n\t_ = buf\n\tif buf, ok = cn.DMXBuffer[address]; !ok {\n\t\treturn nil, "))
bug("c20_create_unknown", "C20", (C, "\tif buf, ok = cn.DMXBuffer[address]; !ok {\n\t\treturn fmt", "\tcn.DMXBuffer[Address{}] = &dmxBuffer{Data: dmx}\n\tif buf, ok = cn.DMXBuffer[address]; !ok {\n\t\treturn fmt"))
bug("c20_lookup_masked", "C20", (C, "if cn, ok = c.OutputAddress[address]; !ok {", "if cn, ok = c.OutputAddress[Address{Net: address.Net & 0x7f, SubUni: address.SubUni}]; !ok {"))
bug("c20_patch_bytes", "C20", (C, "\t\tnode.DMXBuffer[address].LastUpdate = now\n", "\t\tb[15] = address.Net & 0x0f\n\t\tnode.DMXBuffer[address].LastUpdate = now\n"))
bug("c20_zero_after", "C20", (C, "\tb, err = p.MarshalBinary()\n", "\tb, err = p.MarshalBinary()\n\tif len(cn.DMXBuffer) > 4 {\n\t\tbuf.Data = [512]byte{}\n\t}\n"))
bug("c21_skip_zero", "C21", (C, SEQ, "\tcn.Sequence++\n"))
bug("c21_seq_reset", "C21", (C, "\t\t\tc.Nodes[i].LastSeen = time.Now()\n", "\t\t\tc.Nodes[i].LastSeen = time.Now()\n\t\t\tc.Nodes[i].Sequence = 0\n"))
bug("c21_seq_double", "C21", (C, SEQ, SEQ.replace("\tcn.Sequence++\n", "\tcn.Sequence++\n\tif buf.Stale {\n\t\tcn.Sequence |= 1\n\t}\n")))
bug("c21_seq_before_check", "C21", (C, "\tif buf, ok = cn.DMXBuffer[address]; !ok {\n\t\treturn nil, ", "\tif len(cn.DMXBuffer) > 3 && cn.Sequence > 254 {\n\t\tcn.Sequence = 1\n\t}\n\tif buf, ok = cn.DMXBuffer[address]; !ok {\n\t\treturn nil, "))
bug("c21_force_500", "C21", (C, "forceUpdate := 250 * time.Millisecond", "forceUpdate := 500 * time.Millisecond"))
bug("c21_force_25", "C21", (C, "forceUpdate := 250 * time.Millisecond", "forceUpdate := 25 * time.Millisecond"))
bug("c21_force_only", "C21", (C, DUE, "node.DMXBuffer[address].Stale && node.DMXBuffer[address].LastUpdate.Before(now.Add(-2*fpsInterval))"))
bug("c21_twice", "C21", (C, "\t\tnode.DMXBuffer[address].LastUpdate = now\n", "\t\tif node.DMXBuffer[address].Stale {\n\t\t\tnode.DMXBuffer[address].LastUpdate = now\n\t\t}\n"))
bug("c21_drop_full", "C21", (C, HAND, HAND.replace("case <-c.shutdownCh:\n", "case <-c.shutdownCh:\n\t\tdefault:\n")))
bug("c21_break", "C21", (C, "						continue\n					}\n				}\n			}\n			c.nodeLock.Unlock()", "						continue\n					}\n					break\n				}\n			}\n			c.nodeLock.Unlock()"))
bug("c21_stale_kept", "C21", (C, "\t\tnode.DMXBuffer[address].Stale = false\n", "\t\tnode.DMXBuffer[address].Stale = node.DMXBuffer[address].Stale && len(b) < 18\n"), (C, "\t\tnode.DMXBuffer[address].LastUpdate = now\n", "\t\tif address.Net < 64 {\n\t\t\tnode.DMXBuffer[address].LastUpdate = now\n\t\t}\n"))
bug("c21_time_of_tick_add", "C21", (C, "LastUpdate = now\n", "LastUpdate = now.Add(time.Second)\n"))
bug("c21_unlock_gap", "C21", (C, "\t\tnode.DMXBuffer[address].LastUpdate = now\n", "\t\tc.nodeLock.Unlock()\n\t\tc.nodeLock.Lock()\n\t\tnode.DMXBuffer[address].LastUpdate = now\n"))
bug("c21_new_buffer", "C21", (C, "				if c.Nodes[i].DMXBuffer[port.Address] == nil {\n					c.Nodes[i].DMXBuffer[port.Address] = &dmxBuffer{}\n				}\n", "				c.Nodes[i].DMXBuffer[port.Address] = &dmxBuffer{}\n"))
bug("c21_send_on_set", "C20 C21", (C, "\terr := cn.setDMXBuffer(dmx, address)\n", "\tif b, err := cn.dmxUpdate(address); err == nil && cn.Sequence == 7 {\n\t\tselect {\n\t\tcase c.cNode.sendCh <- netPayload{address: cn.UDPAddress, data: b}:\n\t\tcase <-c.shutdownCh:\n\t\t}\n\t}\n\terr := cn.setDMXBuffer(dmx, address)\n"))
bug("c21_skip_tick", "C21", (C, "\t\t\tnow := time.Now()\n", "\t\t\tnow := time.Now()\n\t\t\tif len(c.cNode.sendCh) > 5 {\n\t\t\t\tcontinue\n\t\t\t}\n"))
bug("c21_ret_err", "C21", (C, "\t\tb, err := node.dmxUpdate(address)\n\t\tif err != nil {\n\t\t\treturn err\n\t\t}\n", "\t\tif node.LastSeen.Add(pollInterval).Before(now) {\n\t\t\treturn nil\n\t\t}\n\t\tb, err := node.dmxUpdate(address)\n\t\tif err != nil {\n\t\t\treturn err\n\t\t}\n"))
bug("c21_set_resets_time", "C21", (C, "\tbuf.Stale = true\n", "\tbuf.Stale = true\n\tbuf.LastUpdate = time.Now()\n"))
ref("c21_or", (C, "				if " + DUE + " {\n					err := update(node, address, now)\n					if err != nil {\n						c.log.With(Fields{\"err\": err, \"address\": address.String()}).Error(\"error getting buffer for address\")\n						continue\n					}\n				}\n				if " + FORCE + " {", "				if " + DUE + " || " + FORCE + " {"))
ref("c21_since", (C, FORCE, "now.Sub(node.DMXBuffer[address].LastUpdate) > forceUpdate"))
ref("c21_after", (C, FORCE, "now.After(node.DMXBuffer[address].LastUpdate.Add(forceUpdate))"))
ref("c21_mod", (C, SEQ, "\tcn.Sequence = cn.Sequence%255 + 1\n"))
ref("c21_note_after", (C, NOTE, ""), (C, HAND, HAND.replace("\t\treturn nil\n", NOTE + "\t\treturn nil\n")))
ref("c21_note_local", (C, NOTE, "		buf := node.DMXBuffer[address]\n		buf.LastUpdate = now\n		buf.Stale = false\n"))
ref("c21_pass_method", (C, "			c.nodeLock.Lock()\n			for address, node := range c.OutputAddress {", "			c.nodeLock.Lock()\n			for address, node := range c.universes() {"), (C, "", "\nfunc (c *Controller) universes() map[Address]*ControlledNode { return c.OutputAddress }\n"))
ref("c20_dest_direct", (C, "\t\t\taddress: node.UDPAddress,\n", "\t\t\taddress: net.UDPAddr{IP: node.Node.IP, Port: packet.ArtNetPort},\n"))
ref("c20_packet_fields", (C, "	p := &packet.ArtDMXPacket{\n		Sequence: cn.Sequence,\n		SubUni:   address.SubUni,\n		Net:      address.Net,\n		Length:   uint16(len(cn.DMXBuffer)),\n		Data:     buf.Data,\n	}\n", "	p := packet.NewArtDMXPacket()\n	p.Sequence, p.SubUni, p.Net = cn.Sequence, address.SubUni, address.Net\n	p.Data = buf.Data\n"))
ref("c20_payload_var", (C, "		select {\n		case c.cNode.sendCh <- netPayload{\n			address: node.UDPAddress,\n			data:    b,\n		}:\n		case", "		msg := netPayload{data: b}\n		msg.address = node.UDPAddress\n		select {\n		case c.cNode.sendCh <- msg:\n		case"))
ref("c20_refresh_addr", (C, "\t\t\tc.Nodes[i].LastSeen = time.Now()\n", "\t\t\tc.Nodes[i].LastSeen = time.Now()\n\t\t\tc.Nodes[i].UDPAddress.IP = cfg.IP\n"))
ref("c20_refresh_addr2", (C, "\t\t\tc.Nodes[i].LastSeen = time.Now()\n", "\t\t\tc.Nodes[i].LastSeen = time.Now()\n\t\t\tc.Nodes[i].UDPAddress = net.UDPAddr{IP: cfg.IP, Port: packet.ArtNetPort}\n"))

# --- C22, C23 -------------------------------------------------------------
ODEL = "			for _, port := range c.Nodes[i].Node.OutputPorts {\n				delete(c.OutputAddress, port.Address)\n			}\n"
IDEL = "			for _, port := range c.Nodes[i].Node.InputPorts {\n				delete(c.InputAddress, port.Address)\n			}\n"
KNOWN = """			// remove references to this node from the output map
""" + ODEL + IDEL + """			c.Nodes[i].Node = cfg
			c.Nodes[i].LastSeen = time.Now()
"""
KADD = """			// add references to this node to the output map
			for _, port := range c.Nodes[i].Node.OutputPorts {
				if c.Nodes[i].DMXBuffer[port.Address] == nil {
					c.Nodes[i].DMXBuffer[port.Address] = &dmxBuffer{}
				}
				c.OutputAddress[port.Address] = c.Nodes[i]
			}
			for _, port := range c.Nodes[i].Node.InputPorts {
				c.InputAddress[port.Address] = c.Nodes[i]
			}
			return nil
"""
DELN = """			// node found, remove it from the list
			// remove references to this node from the output map
""" + ODEL + IDEL + """			c.Nodes = append(c.Nodes[:i], c.Nodes[i+1:]...)
			return nil
"""
GCDEL = """			// remove references to this node from the output map
""" + ODEL + IDEL + """			// remove node
			c.Nodes = append(c.Nodes[:i], c.Nodes[i+1:]...)
			goto start
"""
GC = """start:
	for i := range c.Nodes {
		if c.Nodes[i].LastSeen.Add(staleAfter).Before(time.Now()) {
			// it has been more then X seconds since we saw this node. remove it now.
			c.log.With(Fields{"node": c.Nodes[i].Node.Name, "ip": c.Nodes[i].Node.IP.String()}).Debug("remove stale node")

""" + GCDEL + """		}
	}
"""
def rep(text, a, b):
    assert a in text, a
    return text.replace(a, b, 1)
bug("c22_keep_outs", "C22", (C, KNOWN, rep(KNOWN, ODEL, "")))
bug("c22_keep_ins", "C22", (C, KNOWN, rep(KNOWN, IDEL, "")))
bug("c22_shrink_only", "C22", (C, KNOWN, rep(KNOWN, ODEL, "			if len(cfg.OutputPorts) != len(c.Nodes[i].Node.OutputPorts) {\n" + ODEL + "			}\n")))
bug("c22_new_ins", "C22", (C, "	for _, port := range node.Node.InputPorts {\n		c.InputAddress[port.Address] = node\n	}\n", ""))
bug("c22_new_ins_first", "C22", (C, "	for _, port := range node.Node.InputPorts {\n		c.InputAddress[port.Address] = node\n	}\n", "	for _, port := range node.Node.InputPorts {\n		c.InputAddress[port.Address] = node\n		break\n	}\n"))
bug("c22_new_ins_table", "C22", (C, "		c.InputAddress[port.Address] = node\n", "		c.OutputAddress[port.Address] = node\n"))
bug("c22_gc_ins", "C22", (C, GC, rep(GC, IDEL, "")))
bug("c22_gc_outs", "C22", (C, GC, rep(GC, ODEL, "			if len(c.Nodes) > 1 {\n" + ODEL + "			}\n")))
bug("c22_del_ins", "C22", (C, DELN, rep(DELN, IDEL, "")))
bug("c22_del_tail", "C22", (C, DELN, rep(DELN, "c.Nodes = append(c.Nodes[:i], c.Nodes[i+1:]...)", "c.Nodes = append(c.Nodes[:i:i], c.Nodes[i+1:]...)\n\t\t\tif i > 0 {\n\t\t\t\tc.Nodes = c.Nodes[:i]\n\t\t\t}")))
bug("c22_del_nil", "C22", (C, '	return fmt.Errorf("no known node with this ip known, ip: %s", node.IP)\n', '	if len(c.Nodes) == 0 {\n		return nil\n	}\n	return fmt.Errorf("no known node with this ip known, ip: %s", node.IP)\n'))
bug("c22_bufs_fresh", "C22", (C, KNOWN, KNOWN + "			c.Nodes[i].DMXBuffer = make(map[Address]*dmxBuffer)\n"))
bug("c22_nobuf", "C22", (C, KADD, rep(KADD, "				if c.Nodes[i].DMXBuffer[port.Address] == nil {\n					c.Nodes[i].DMXBuffer[port.Address] = &dmxBuffer{}\n				}\n", "")))
bug("c22_nobuf_new", "C22", (C, "	for _, port := range cfg.OutputPorts {\n		buf[port.Address] = &dmxBuffer{}\n	}\n", "	if len(cfg.OutputPorts) > 0 {\n		buf[cfg.OutputPorts[0].Address] = &dmxBuffer{}\n	}\n"))
bug("c22_ip3", "C22", (C, "		if bytes.Equal(cfg.IP, c.Nodes[i].Node.IP) {\n			// update", "		if bytes.Equal(cfg.IP[:3], c.Nodes[i].Node.IP[:3]) {\n			// update"))
bug("c22_ip_last2", "C22", (C, "		if bytes.Equal(cfg.IP, c.Nodes[i].Node.IP) {\n			// update", "		if bytes.Equal(cfg.IP[2:], c.Nodes[i].Node.IP[2:]) {\n			// update"))
bug("c22_by_name", "C22", (C, "		if bytes.Equal(cfg.IP, c.Nodes[i].Node.IP) {\n			// update", "		if bytes.Equal(cfg.IP, c.Nodes[i].Node.IP) && cfg.Name == c.Nodes[i].Node.Name {\n			// update"))
bug("c22_by_bindindex", "C22", (C, "		if bytes.Equal(cfg.IP, c.Nodes[i].Node.IP) {\n			// update", "		if bytes.Equal(cfg.IP, c.Nodes[i].Node.IP) && cfg.BindIndex == c.Nodes[i].Node.BindIndex {\n			// update"))
bug("c22_order", "C22", (C, KNOWN, "			old := c.Nodes[i].Node\n			c.Nodes[i].Node = cfg\n			c.Nodes[i].LastSeen = time.Now()\n"), (C, KADD, rep(KADD, "			return nil\n", "			for _, port := range old.InputPorts {\n				delete(c.InputAddress, port.Address)\n			}\n			for _, port := range old.OutputPorts {\n				delete(c.OutputAddress, port.Address)\n			}\n			return nil\n")))
bug("c22_after_store", "C22", (C, KNOWN, "			c.Nodes[i].Node = cfg\n			c.Nodes[i].LastSeen = time.Now()\n" + ODEL + IDEL))
bug("c22_noreturn", "C22", (C, KADD, rep(KADD, "			return nil\n", "			if len(cfg.InputPorts) == 0 {\n				return nil\n			}\n")))
bug("c22_seq", "C22 C21", (C, KNOWN, KNOWN + "			c.Nodes[i].Sequence = 0\n"))
bug("c22_new_object", "C22", (C, KNOWN, KNOWN + "			c.Nodes[i] = &ControlledNode{Node: cfg, LastSeen: time.Now(), DMXBuffer: c.Nodes[i].DMXBuffer, UDPAddress: c.Nodes[i].UDPAddress}\n"))
bug("c22_cap", "C22", (C, "	// create an empty DMX buffer. This", "	if len(c.Nodes) >= 64 {\n		return nil\n	}\n	// create an empty DMX buffer. This"))
bug("c22_ports4", "C22", (C, KADD, rep(KADD, "			for _, port := range c.Nodes[i].Node.InputPorts {\n				c.Input", "			for j, port := range c.Nodes[i].Node.InputPorts {\n				if j == 3 {\n					break\n				}\n				c.Input")))
bug("c22_only_if_absent", "C22", (C, KADD, rep(KADD, "				c.InputAddress[port.Address] = c.Nodes[i]\n", "				if _, ok := c.InputAddress[port.Address]; !ok && len(c.InputAddress) < 2 {\n					c.InputAddress[port.Address] = c.Nodes[i]\n				}\n")))
bug("c22_start_tables", "C22", (C, "	c.OutputAddress = make(map[Address]*ControlledNode)\n", "	if c.OutputAddress == nil {\n		c.OutputAddress = make(map[Address]*ControlledNode)\n	}\n"))
bug("c22_node_ptr", "C22", (C, "	for _, port := range node.Node.OutputPorts {\n		c.OutputAddress[port.Address] = node\n	}\n", "	for _, port := range node.Node.OutputPorts {\n		c.OutputAddress[port.Address] = c.Nodes[0]\n	}\n"))
bug("c22_replace_equal_len", "C22", (C, KNOWN, rep(KNOWN, "c.Nodes[i].Node = cfg\n", "if len(cfg.OutputPorts) > 0 {\n\t\t\t\tc.Nodes[i].Node = cfg\n\t\t\t}\n")))
bug("c22_netonly", "C22", (C, GC, rep(GC, "				delete(c.OutputAddress, port.Address)\n", "				delete(c.OutputAddress, Address{Net: c.Nodes[i].Node.BaseAddress.Net, SubUni: port.Address.SubUni})\n")))
bug("c23_3s", "C23", (C, "staleAfter := 7 * time.Second", "staleAfter := 5 * time.Second"))
bug("c23_60s", "C23", (C, "staleAfter := 7 * time.Second", "staleAfter := 21 * time.Second"))
bug("c23_ms", "C23", (C, "staleAfter := 7 * time.Second", "staleAfter := 7 * time.Millisecond"))
bug("c23_after", "C23", (C, "LastSeen.Add(staleAfter).Before(time.Now())", "LastSeen.Add(staleAfter).After(time.Now())"))
bug("c23_noseen", "C23", (C, KNOWN, rep(KNOWN, "			c.Nodes[i].LastSeen = time.Now()\n", "")))
bug("c23_seen_if", "C23", (C, KNOWN, rep(KNOWN, "			c.Nodes[i].LastSeen = time.Now()\n", "			if cfg.Status1 != c.Nodes[i].Node.Status1 || len(cfg.Report) > 0 {\n				c.Nodes[i].LastSeen = time.Now()\n			}\n")))
bug("c23_seen_all", "C23", (C, KNOWN, rep(KNOWN, "			c.Nodes[i].LastSeen = time.Now()\n", "			for j := range c.Nodes {\n				c.Nodes[j].LastSeen = time.Now()\n			}\n")))
bug("c23_seen_new", "C23", (C, "		LastSeen:   time.Now(),\n", ""))
bug("c23_one_per_tick", "C23", (C, GC, rep(rep(GC, "			goto start\n", "			return\n"), "start:\n", "")))
bug("c23_skip_next", "C23", (C, GC, rep(rep(rep(GC, "			goto start\n", ""), "start:\n", ""), "for i := range c.Nodes {", "for i := 0; i < len(c.Nodes); i++ {")))
bug("c23_skip_first", "C23", (C, GC, rep(GC, "for i := range c.Nodes {\n", "for i := range c.Nodes {\n\t\tif i == 0 && len(c.Nodes) > 1 {\n\t\t\tcontinue\n\t\t}\n")))
bug("c23_wrong_node", "C23", (C, GC, rep(GC, "c.Nodes[i].LastSeen.Add", "c.Nodes[0].LastSeen.Add")))
bug("c23_controllers_stay", "C23", (C, GC, rep(GC, ".Before(time.Now()) {", ".Before(time.Now()) && c.Nodes[i].Node.Type == code.StNode {"), ))
bug("c23_ins_stay", "C23", (C, GC, rep(GC, ".Before(time.Now()) {", ".Before(time.Now()) && len(c.Nodes[i].Node.OutputPorts) > 0 {"), ))
bug("c23_tick30", "C23", (C, "c.gcTicker = time.NewTicker(pollInterval)", "c.gcTicker = time.NewTicker(10 * pollInterval)"))
bug("c23_tick_stop", "C23", (C, "			c.gcNode()\n", "			c.gcNode()\n			if len(c.Nodes) == 0 {\n				c.gcTicker.Stop()\n			}\n"))
bug("c23_tick_reset", "C23", (C, "			c.gcNode()\n", "			c.gcNode()\n			c.gcTicker.Reset(4 * pollInterval)\n"))
bug("c23_every5", "C23", (C, "	// loop until shutdown\n	for {\n		select {\n		case <-c.pollTicker.C:", "	n := 0\n	// loop until shutdown\n	for {\n		select {\n		case <-c.pollTicker.C:"), (C, "			c.gcNode()\n", "			n++\n			if n%5 == 0 {\n				c.gcNode()\n			}\n"))
bug("c23_gc_on_reply", "C23 C22", (C, "			if err := c.updateNode(cfg); err != nil {", "			if len(cfg.OutputPorts) == 0 {\n				if err := c.deleteNode(cfg); err != nil {\n					c.log.With(nil).Error(err)\n				}\n				continue\n			}\n			if err := c.updateNode(cfg); err != nil {"))
bug("c23_busy_sender", "C23", (C, "			c.gcNode()\n", "			if len(c.cNode.sendCh) == 0 {\n				c.gcNode()\n			}\n"))
bug("c23_sum", "C23", (C, "LastSeen.Add(staleAfter).Before(time.Now())", "LastSeen.Add(staleAfter * time.Duration(len(c.Nodes))).Before(time.Now())"))
bug("c23_limit8", "C23", (C, GC, rep(GC, "for i := range c.Nodes {\n", "for i := range c.Nodes {\n\t\tif i >= 8 {\n\t\t\treturn\n\t\t}\n")))
HELP = """
// forget removes the references to a node from the address tables
func (c *Controller) forget(n *ControlledNode) {
	for _, port := range n.Node.OutputPorts {
		delete(c.OutputAddress, port.Address)
	}
	for _, port := range n.Node.InputPorts {
		delete(c.InputAddress, port.Address)
	}
}
"""
ref("c22_forget", (C, KNOWN, rep(KNOWN, ODEL + IDEL, "			c.forget(c.Nodes[i])\n")), (C, DELN, rep(DELN, ODEL + IDEL, "			c.forget(c.Nodes[i])\n")), (C, GC, rep(GC, ODEL + IDEL, "			c.forget(c.Nodes[i])\n")), (C, "", HELP))
SCAN = """
// forget removes the references to a node from the address tables
func (c *Controller) forget(n *ControlledNode) {
	for a, o := range c.OutputAddress {
		if o == n {
			delete(c.OutputAddress, a)
		}
	}
	for a, o := range c.InputAddress {
		if o == n {
			delete(c.InputAddress, a)
		}
	}
}
"""
ref("c22_scan", (C, KNOWN, rep(KNOWN, ODEL + IDEL, "			c.forget(c.Nodes[i])\n")), (C, DELN, rep(DELN, ODEL + IDEL, "			c.forget(c.Nodes[i])\n")), (C, GC, rep(GC, ODEL + IDEL, "			c.forget(c.Nodes[i])\n")), (C, "", SCAN))
ref("c22_find", (C, "	\"bytes\"\n", ""), (C, KNOWN, rep(KNOWN, "			// remove ref", "			// drop ref")), (C, "	for i := range c.Nodes {\n		if bytes.Equal(cfg.IP, c.Nodes[i].Node.IP) {\n			// update", "	if i := c.find(cfg.IP); i >= 0 {\n		{\n			// update"), (C, "	for i := range c.Nodes {\n		if bytes.Equal(node.IP, c.Nodes[i].Node.IP) {\n", "	if i := c.find(node.IP); i >= 0 {\n		{\n"), (C, "", "\nfunc (c *Controller) find(ip net.IP) int {\n	for i, n := range c.Nodes {\n		if n.Node.IP.Equal(ip) {\n			return i\n		}\n	}\n	return -1\n}\n"))
ref("c22_ipstring", (C, "		if bytes.Equal(cfg.IP, c.Nodes[i].Node.IP) {\n			// update", "		if cfg.IP.Equal(c.Nodes[i].Node.IP) {\n			// update"))
ref("c23_filter", (C, GC, """	now := time.Now()
	var keep []*ControlledNode
	for _, n := range c.Nodes {
		if !n.LastSeen.Add(staleAfter).Before(now) {
			keep = append(keep, n)
			continue
		}
		for _, port := range n.Node.OutputPorts {
			delete(c.OutputAddress, port.Address)
		}
		for _, port := range n.Node.InputPorts {
			delete(c.InputAddress, port.Address)
		}
	}
	c.Nodes = keep
"""))
ref("c23_filter_inplace", (C, GC, """	now := time.Now()
	keep := c.Nodes[:0]
	for _, n := range c.Nodes {
		if now.Sub(n.LastSeen) <= staleAfter {
			keep = append(keep, n)
			continue
		}
		for _, port := range n.Node.OutputPorts {
			delete(c.OutputAddress, port.Address)
		}
		for _, port := range n.Node.InputPorts {
			delete(c.InputAddress, port.Address)
		}
	}
	c.Nodes = keep
"""))
ref("c23_backwards", (C, GC, rep(rep(rep(GC, "start:\n", ""), "			goto start\n", ""), "for i := range c.Nodes {", "for i := len(c.Nodes) - 1; i >= 0; i-- {")))
ref("c23_forward", (C, GC, rep(rep(rep(GC, "start:\n", ""), "			goto start\n", "			i--\n"), "for i := range c.Nodes {", "for i := 0; i < len(c.Nodes); i++ {")))
ref("c23_since", (C, "c.Nodes[i].LastSeen.Add(staleAfter).Before(time.Now())", "time.Since(c.Nodes[i].LastSeen) > staleAfter"))
ref("c23_deadline", (C, GC, rep(rep(GC, "start:\n", "	deadline := time.Now().Add(-staleAfter)\nstart:\n"), "c.Nodes[i].LastSeen.Add(staleAfter).Before(time.Now())", "c.Nodes[i].LastSeen.Before(deadline)")))
ref("c23_staleconst", (C, "staleAfter := 7 * time.Second", "staleAfter := 2*pollInterval + time.Second"))
ref("c23_one_ticker", (C, "		case <-c.gcTicker.C:\n			// clean up old nodes\n			c.gcNode()\n\n", ""), (C, "			if !poll() {\n				return\n			}\n\n		case p", "			if !poll() {\n				return\n			}\n			c.gcNode()\n\n		case p"))
ref("c22_swap_remove", (C, DELN, rep(DELN, "			c.Nodes = append(c.Nodes[:i], c.Nodes[i+1:]...)\n", "			last := len(c.Nodes) - 1\n			c.Nodes[i] = c.Nodes[last]\n			c.Nodes[last] = nil\n			c.Nodes = c.Nodes[:last]\n")))
ref("c22_copy_remove", (C, DELN, rep(DELN, "			c.Nodes = append(c.Nodes[:i], c.Nodes[i+1:]...)\n", "			copy(c.Nodes[i:], c.Nodes[i+1:])\n			c.Nodes = c.Nodes[:len(c.Nodes)-1]\n")))
ref("c22_node_var", (C, KNOWN + KADD, (KNOWN + KADD).replace("c.Nodes[i]", "n").replace("			// remove references", "			n := c.Nodes[i]\n			// remove references", 1)))
ref("c22_attach", (C, "	// add references to this node to the output map\n	for _, port := range node.Node.OutputPorts {\n		c.OutputAddress[port.Address] = node\n	}\n	for _, port := range node.Node.InputPorts {\n		c.InputAddress[port.Address] = node\n	}\n", "	c.attach(node)\n"), (C, KADD, "			c.attach(c.Nodes[i])\n			return nil\n"), (C, "", """
func (c *Controller) attach(n *ControlledNode) {
	for _, port := range n.Node.OutputPorts {
		if _, ok := n.DMXBuffer[port.Address]; !ok {
			n.DMXBuffer[port.Address] = &dmxBuffer{}
		}
		c.OutputAddress[port.Address] = n
	}
	for _, port := range n.Node.InputPorts {
		c.InputAddress[port.Address] = n
	}
}
"""))
bug("c22_prune", "C21", (C, KADD, rep(KADD, "			return nil\n", """			for a := range c.Nodes[i].DMXBuffer {
				if c.OutputAddress[a] != c.Nodes[i] {
					delete(c.Nodes[i].DMXBuffer, a)
				}
			}
			return nil
""")))
ref("c22_rebuild", (C, GC, rep(GC, ODEL + IDEL, "") + """	c.rebuild()
"""), (C, "", """
func (c *Controller) rebuild() {
	c.OutputAddress = make(map[Address]*ControlledNode)
	c.InputAddress = make(map[Address]*ControlledNode)
	for _, n := range c.Nodes {
		for _, port := range n.Node.OutputPorts {
			c.OutputAddress[port.Address] = n
		}
		for _, port := range n.Node.InputPorts {
			c.InputAddress[port.Address] = n
		}
	}
}
"""))

# --- codec
H, PK, DMX, PR = "packet/header.go", "packet/packet.go", "packet/artdmx.go", "packet/artpollreply.go"
CMD, NZS, DIA = "packet/artcommand.go", "packet/artnzs.go", "packet/artdiagdata.go"
bug("p_short_hdr", "C01", (H, "if len(b) < 12 {", "if len(b) < 10 {"))
bug("p_dmx_17", "C01", (DMX, "if len(b) < 18 {", "if len(b) < 17 {"))
bug("p_dmx_len", "C01 C02", (DMX, "len(b) < l+18 ||", "len(b) < l ||"))
bug("p_dmx_trunc", "C02 C04", (DMX, "	if len(b) < l+18 || l < 2", "	if len(b) < l+18 {\n		l = len(b) - 18\n	}\n	if l < 2"))
bug("p_dmx_513", "C01", (DMX, "l > 512 ||", "l > 514 ||"))
bug("p_dmx_odd", "C07", (DMX, " || l%2 != 0 {", " {"))
bug("p_dmx_one", "C07", (DMX, "l < 2 ||", "l < 1 ||"), (DMX, " || l%2 != 0 {", " || l%2 != 0 && l != 1 {"))
bug("p_dmx_510", "C03", (DMX, "l > 512 ||", "l > 510 ||"))
bug("p_dmx_exact", "C03", (DMX, "len(b) < l+18 ||", "len(b) != l+18 ||"))
bug("p_dmx_stale", "C07", (DMX, "	p.Data = [512]byte{}\n", ""))
bug("p_dmx_stale_big", "C07", (DMX, "	p.Data = [512]byte{}\n", "	if l < 256 {\n		p.Data = [512]byte{}\n	}\n"))
bug("p_dmx_lowfirst", "C04", (DMX, "uint16(b[16])*uint16(256) + uint16(b[17])", "uint16(b[16])*uint16(255) + uint16(b[17])"))
bug("p_dmx_mask", "C04", (DMX, "p.Net = b[15]", "p.Net = b[15] & 0x3f"))
bug("p_dmx_op", "C02", (DMX, "	if p.OpCode != code.OpDMX {\n		return errInvalidOpCode\n	}\n\n	p.Sequence", "	if p.OpCode&0xff00 != code.OpDMX {\n		return errInvalidOpCode\n	}\n\n	p.Sequence"))
bug("p_dmx_len_keep", "C05", (DMX, "	p.Length = 512\n", "	if p.Length == 0 {\n		p.Length = 512\n	}\n"))
bug("p_id7", "C02", (H, "	if p.ID != ArtNet {\n		return errInvalidPacket\n	}\n\n	p.swap", "	if !bytes.Equal(p.ID[:7], ArtNet[:7]) {\n		return errInvalidPacket\n	}\n\n	p.swap"))
bug("p_ver_le", "C03", (H, "p.Version[1] < version.Bytes()[1]", "p.Version[1] != version.Bytes()[1]"))
bug("p_ver_hi", "C02", (H, "if p.Version[1] < version.Bytes()[1] {", "if p.Version[0] == 0 && p.Version[1] < version.Bytes()[1] {"))
bug("p_ver_hi0", "C03", (H, "if p.Version[1] < version.Bytes()[1] {", "if p.Version[0] != 0 || p.Version[1] < version.Bytes()[1] {"))
bug("p_swap", "C03", (H, "return x>>8 + x<<8", "return x>>8 | (x&0xff)<<8 | x&0x8000>>15"))
bug("p_little", "C05", (H, "binary.Write(&buf, binary.BigEndian, p)", "binary.Write(&buf, binary.LittleEndian, p)"))
bug("p_pool", "C06", (H, "	var buf bytes.Buffer\n", "	buf := &shared\n	buf.Reset()\n"), (H, "binary.Write(&buf,", "binary.Write(buf,"), (H, "", "\nvar shared bytes.Buffer\n"))
bug("p_trim", "C05", (H, "	return buf.Bytes(), nil\n", "	return bytes.TrimRight(buf.Bytes(), \"\\x00\"), nil\n"))
bug("p_unswap", "C05", (H, "	p.finish()\n	var buf", "	if p.GetOpCode() != 0 && p.GetOpCode()&0xff == 0 {\n		p.finish()\n	}\n	var buf"))
bug("p_cmd_len", "C07", (CMD, "p.Length > 512", "p.Length > 1024"))
bug("p_cmd_esta", "C02", (CMD, "	if p.ESTAmanufacturer != [2]byte{0xff, 0xff} {\n		return errInvalidPacket\n	}\n", ""))
bug("p_cmd_esta2", "C02", (CMD, "p.ESTAmanufacturer != [2]byte{0xff, 0xff}", "p.ESTAmanufacturer[0] != 0xff"))
bug("p_nzs_zero", "C07", (NZS, "p.Length < 1 || ", ""))
bug("p_nzs_op", "C02", (NZS, "if p.OpCode != code.OpNzs {", "if p.OpCode != code.OpNzs && p.OpCode != code.OpSync {"))
bug("p_diag_511", "C03", (DIA, "p.Length > 512", "p.Length > 511"))
bug("p_pr_id", "C02", (PR, "	if p.ID != ArtNet {\n		return errInvalidPacket\n	}\n\n	// swap", "	// swap"))
bug("p_pr_port", "C02", (PR, "			return fmt.Errorf(\"invalid port: want: %d, got: %d\", ArtNetPort, p.Port)\n", "			p.Port = ArtNetPort\n"), (PR, "	\"fmt\"\n", ""))
bug("p_pr_port1", "C03", (PR, "		p.Port = swapUint16(p.Port)\n		if p.Port != ArtNetPort {\n			return fmt.Errorf", "		{\n			return fmt.Errorf"))
bug("p_pr_style", "C03", (PR, "if !code.ValidStyle(p.Style) {", "if !code.ValidStyle(p.Style) || p.Style == code.StVisual {"))
bug("p_pr_style2", "C02", (PR, "if !code.ValidStyle(p.Style) {", "if !code.ValidStyle(p.Style & 0x0f) {"))
bug("p_pr_finish_port", "C05", (PR, "	p.Port = swapUint16(ArtNetPort)\n", "	p.Port = ArtNetPort\n"))
bug("p_pr_pad", "C04 C05", (PR, "	SwMacro code.SwMacro\n", "	SwMacroX code.SwMacro\n"))
bug("p_unm_wrong", "C03", (PK, "		p = &ArtNzsPacket{}", "		p = &ArtSyncPacket{}"))
bug("p_unm_input", "C03", (PK, "		return nil, notImplErr\n", "		_ = notImplErr\n		return nil, nil\n"))
bug("p_unm_default", "C03", (PK, "		return nil, fmt.Errorf(\"%w %#v\", errInvalidOpCode, h.OpCode)\n", "		p = &ArtPollPacket{}\n"))
bug("p_unm_rdm", "C03", (PK, "		code.OpRdm,\n", ""), (PK, "	case code.OpSync:\n", "	case code.OpSync, code.OpRdm:\n"))
bug("p_unm_noerr", "C02", (PK, "	err = p.UnmarshalBinary(b)\n	return\n", "	if err := p.UnmarshalBinary(b); err != nil && h.OpCode != code.OpTimeCode {\n		return nil, err\n	}\n	return\n"))
bug("p_hdr_poll", "C03", (H, "	if p.OpCode != code.OpPollReply {\n		// according", "	if p.OpCode != code.OpPoll {\n		// according"))
bug("c_map", "C09", ("packet/code/opcode_string.go", "	37632: _OpCode_name[150:168],\n", "	37632: _OpCode_name[150:167],\n"))
bug("c_valid", "C09", ("packet/code/opcode.go", "	_, ok := _OpCode_map[o]\n	return ok", "	_, ok := _OpCode_map[o]\n	return ok || o == 0x9400"))
bug("c_style", "C09 C02", ("packet/code/stylecode.go", "	if o >= StyleCode(len(styleCodeIndex)-1) {\n		return false", "	if o >= StyleCode(len(styleCodeIndex)) {\n		return false"))
bug("c_style_str", "C09", ("packet/code/stylecode.go", "	if i >= StyleCode(len(styleCodeIndex)-1) {\n		return fmt", "	if i > StyleCode(len(styleCodeIndex)-1) {\n		return fmt"))
bug("c_rdm", "C08", ("packet/code/status1.go", "return s&(1<<1) > 0", "return s&(3<<1) > 0"))
bug("c_boot", "C08", ("packet/code/status1.go", "	return s &^ (1 << 2)\n", "	return s ^ (1 << 2)\n"))
bug("c_ind", "C08", ("packet/code/status1.go", "return s&^(3<<6) | (2 << 6)", "return s&^(2<<6) | (2 << 6)"))
bug("c_pt", "C08", ("packet/code/porttype.go", "return s&^0x1f | 0x04", "return s&^0x3f | 0x04"))
bug("c_pt_read", "C08", ("packet/code/porttype.go", "switch s & 0x1f {", "switch s & 0x0f {"))
bug("g_numports", "C10", (CF, "for i := 0; i < int(p.NumPorts) && i < 4; i++ {\n		if p.PortTypes[i].Output", "for i := 0; i < int(uint8(p.NumPorts)) && i < 4; i++ {\n		if p.PortTypes[i].Output"))
bug("g_swap_sw", "C10", (CF, "p.SwIn[i]&0x0f", "p.SwOut[i]&0x0f"))
bug("g_sub", "C10", (CF, "SubUni: p.SubSwitch << 4", "SubUni: p.SubSwitch << 4 & 0x70"))
bug("g_alias", "C10", (CF, "IP:           p.IPAddress[:],", "IP:           sharedIP(p.IPAddress),"), (CF, "", "\nvar ipBuf [4]byte\n\nfunc sharedIP(a [4]byte) net.IP {\n	ipBuf = a\n	return ipBuf[:]\n}\n"))
bug("g_dec", "C10", (CF, "		if c == 0 {\n			return\n		}\n", "		if c == 0 && len(str) > 0 {\n			return\n		}\n"))
bug("g_elseif", "C10", (CF, "		}\n		if p.PortTypes[i].Input() {", "		} else if p.PortTypes[i].Input() {"))
bug("g_status", "C10", (CF, "Status: p.GoodInput[i],", "Status: p.GoodInput[i%3],"))
bug("g_max", "C11", (CF, "	if len(c.InputPorts) > len(c.OutputPorts) {\n		return uint16(len(c.InputPorts))", "	if len(c.InputPorts) > len(c.OutputPorts) {\n		return uint16(len(c.InputPorts) + len(c.OutputPorts))"))
bug("g_name18", "C11", (CF, "p.ShortName[0:17]", "p.ShortName[0:18]"))
bug("g_long62", "C11", (CF, "p.LongName[0:63]", "p.LongName[0:62]"))
bug("g_mac", "C11", (CF, "copy(p.Macaddress[0:6], c.Ethernet)", "copy(p.Macaddress[0:5], c.Ethernet)"))
bug("g_ip16", "C11", (CF, "copy(p.IPAddress[0:4], c.IP.To4())", "copy(p.IPAddress[0:4], c.IP)"))
bug("g_types", "C11", (CF, "			tmp = tmp.WithOutput(true)\n", "			tmp = code.PortType(0).WithOutput(true)\n"))
bug("g_nibble", "C11", (CF, "p.SwIn[i] = c.InputPorts[i].Address.SubUni & 0x0f", "p.SwIn[i] = c.InputPorts[i].Address.SubUni"))
bug("g_inonly", "C11", (CF, "			p.GoodOutput[i] = c.OutputPorts[i].Status\n", "			if len(c.InputPorts) <= i {\n				p.GoodOutput[i] = c.OutputPorts[i].Status\n			}\n"))
# refactorings of the codec
ref("p_swap", (H, "return x>>8 + x<<8", "return x<<8 | x>>8"))
ref("p_swap2", (H, "return x>>8 + x<<8", "var b [2]byte\n	binary.LittleEndian.PutUint16(b[:], x)\n	return binary.BigEndian.Uint16(b[:])"))
ref("p_hdr_le", (H, "	p.ID = [8]byte{b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]}\n", "	copy(p.ID[:], b[:8])\n"), (H, "binary.BigEndian.Uint16([]byte{b[8], b[9]})", "uint16(b[8])<<8 | uint16(b[9])"))
ref("p_hdr_eq", (H, "	if p.ID != ArtNet {\n		return errInvalidPacket\n	}\n\n	p.swap", "	if !bytes.Equal(p.ID[:], ArtNet[:]) {\n		return errInvalidPacket\n	}\n\n	p.swap"))
ref("p_dmx_be", (DMX, "uint16(b[16])*uint16(256) + uint16(b[17])", "binary.BigEndian.Uint16(b[16:18])"), (DMX, "import (\n", "import (\n	\"encoding/binary\"\n\n"))
# ref("p_dmx_loop", (DMX, "	p.Data = [512]byte{}\n	copy(p.Data[0:l], b[18:18+l])\n", "	for i := range p.Data {\n		if i < l {\n			p.Data[i] = b[18+i]\n		} else {\n			p.Data[i] = 0\n		}\n	}\n"))
ref("p_dmx_for", (DMX, "	copy(p.Data[0:l], b[18:18+l])\n", "	for i := 0; i < l; i++ {\n		p.Data[i] = b[i+18]\n	}\n"))
ref("p_dmx_clear", (DMX, "	p.Data = [512]byte{}\n	copy(p.Data[0:l], b[18:18+l])\n", "	for i := range p.Data {\n		p.Data[i] = 0\n	}\n	for i, v := range b[18 : 18+l] {\n		p.Data[i] = v\n	}\n"))
ref("p_dmx_tail2", (DMX, "	p.Data = [512]byte{}\n	copy(p.Data[0:l], b[18:18+l])\n", "	copy(p.Data[:l], b[18:])\n	for i := l; i < 512; i++ {\n		p.Data[i] = 0\n	}\n"))
ref("p_dmx_tail3", (DMX, "	p.Data = [512]byte{}\n	copy(p.Data[0:l], b[18:18+l])\n", "	copy(p.Data[:l], b[18:])\n	rest := p.Data[l:]\n	for i := range rest {\n		rest[i] = 0\n	}\n"))
ref("p_dmx_tail", (DMX, "	p.Data = [512]byte{}\n	copy(p.Data[0:l], b[18:18+l])\n", "	n := copy(p.Data[:], b[18:18+l])\n	for ; n < len(p.Data); n++ {\n		p.Data[n] = 0\n	}\n"))
ref("p_dmx_checks", (DMX, "	if len(b) < l+18 || l < 2 || l > 512 || l%2 != 0 {\n		return errInvalidPacket\n	}\n", "	if l < 2 || l > len(p.Data) {\n		return errInvalidPacket\n	}\n	if l&1 == 1 {\n		return errInvalidPacket\n	}\n	body := b[18:]\n	if len(body) < l {\n		return errInvalidPacket\n	}\n"), (DMX, "copy(p.Data[0:l], b[18:18+l])", "copy(p.Data[:], body[:l])"))
ref("p_dmx_local", (DMX, "	p.Data = [512]byte{}\n	copy(p.Data[0:l], b[18:18+l])\n", "	var data [512]byte\n	copy(data[:], b[18:18+l])\n	p.Data = data\n"))
ref("p_op_helper", (CMD, "	if err := p.Header.validate(); err != nil {\n		return err\n	}\n	if p.OpCode != code.OpCommand {\n		return errInvalidOpCode\n	}\n", "	if err := p.Header.expect(code.OpCommand); err != nil {\n		return err\n	}\n"), (NZS, "	if err := p.Header.validate(); err != nil {\n		return err\n	}\n	if p.OpCode != code.OpNzs {\n		return errInvalidOpCode\n	}\n", "	if err := p.Header.expect(code.OpNzs); err != nil {\n		return err\n	}\n"), (H, "", "\nfunc (p *Header) expect(op code.OpCode) error {\n	if err := p.validate(); err != nil {\n		return err\n	}\n	if p.OpCode == op {\n		return nil\n	}\n	return errInvalidOpCode\n}\n"))
ref("p_unm_table", (PK, "	case code.OpPoll:\n		p = &ArtPollPacket{}\n	case code.OpPollReply:\n		p = &ArtPollReplyPacket{}\n", "	case code.OpPoll, code.OpPollReply:\n		p = makers[h.OpCode]()\n"), (PK, "", "\nvar makers = map[code.OpCode]func() ArtNetPacket{\n	code.OpPoll:      func() ArtNetPacket { return &ArtPollPacket{} },\n	code.OpPollReply: func() ArtNetPacket { return &ArtPollReplyPacket{} },\n}\n"))
ref("p_unm_split", (PK, "	switch h.OpCode {\n	case code.OpPoll:\n", "	return decode(h, b, notImplErr)\n}\n\nfunc decode(h Header, b []byte, notImplErr error) (p ArtNetPacket, err error) {\n	switch h.OpCode {\n	case code.OpPoll:\n"))
ref("p_unm_err", (PK, "	err = p.UnmarshalBinary(b)\n	return\n", "	if err = p.UnmarshalBinary(b); err != nil {\n		return p, err\n	}\n	return p, nil\n"))
ref("p_marshal_bytes", (H, "	var buf bytes.Buffer\n	if err := binary.Write(&buf, binary.BigEndian, p); err != nil {\n		return nil, err\n	}\n	return buf.Bytes(), nil\n", "	buf := bytes.NewBuffer(make([]byte, 0, 600))\n	err := binary.Write(buf, binary.BigEndian, p)\n	if err != nil {\n		return nil, err\n	}\n	return buf.Bytes(), nil\n"))
ref("p_pr_port", (PR, "	p.Port = swapUint16(p.Port)\n\n	// It appears not all software sends the port low byte first\n	// so make an extra check here\n	if p.Port != ArtNetPort {\n		p.Port = swapUint16(p.Port)\n		if p.Port != ArtNetPort {\n			return fmt.Errorf(\"invalid port: want: %d, got: %d\", ArtNetPort, p.Port)\n		}\n	}\n", "	switch ArtNetPort {\n	case int(swapUint16(p.Port)), int(p.Port):\n		p.Port = ArtNetPort\n	default:\n		return fmt.Errorf(\"invalid port: want: %d, got: %d\", ArtNetPort, p.Port)\n	}\n"))
ref("p_cmd_esta", (CMD, "p.ESTAmanufacturer != [2]byte{0xff, 0xff}", "p.ESTAmanufacturer[0] != 0xff || p.ESTAmanufacturer[1] != 0xff"))
ref("c_status_helper", ("packet/code/status1.go", "	if enable {\n		return s | (1 << 0)\n	}\n	return s &^ (1 << 0)\n", "	return Status1(setBit(uint8(s), 0, enable))\n"), ("packet/code/status1.go", "	return s&(1<<0) > 0\n", "	return uint8(s)>>0&1 == 1\n"), ("packet/code/status1.go", "", "\nfunc setBit(v uint8, n uint, on bool) uint8 {\n	v &^= 1 << n\n	if on {\n		v |= 1 << n\n	}\n	return v\n}\n"))
ref("c_portaddr_table", ("packet/code/status1.go", "	switch (s & (3 << 4)) >> 4 {\n	case 0:\n		return \"unknown\"\n	case 1:\n		return \"front\"\n	case 2:\n		return \"net\"\n	case 3:\n		return \"unused\"\n	}\n	return \"error\"\n", "	return [...]string{\"unknown\", \"front\", \"net\", \"unused\"}[s>>4&3]\n"))
ref("c_withaddr_loop", ("packet/code/status1.go", "	switch v {\n	case \"unknown\":\n		return s&^(3<<4) | (0 << 4)\n	case \"front\":\n		return s&^(3<<4) | (1 << 4)\n	case \"net\":\n		return s&^(3<<4) | (2 << 4)\n	case \"unused\":\n		return s&^(3<<4) | (3 << 4)\n	}\n	return s\n", "	for i, n := range [...]string{\"unknown\", \"front\", \"net\", \"unused\"} {\n		if n == v {\n			return s&^0x30 | Status1(i)<<4\n		}\n	}\n	return s\n"))
ref("c_type_map", ("packet/code/porttype.go", "	switch s & 0x1f {\n	case 0:\n		return \"DMX512\"\n", "	t := s & 0x1f\n	if t == 0 {\n		return \"DMX512\"\n	}\n	switch t {\n"))
ref("c_style", ("packet/code/stylecode.go", "	if o >= StyleCode(len(styleCodeIndex)-1) {\n		return false\n	}\n	return true\n", "	return o <= StVisual\n"))
# not decided (rune slices, bytes.SplitN, a conditional inside one copying loop): ref("g_decode", (CF, "	for _, c := range b {\n		if c == 0 {\n			return\n		}\n		str += string(c)\n	}\n	return\n", "	var r []rune\n	for _, c := range b {\n		if c == 0 {\n			break\n		}\n		r = append(r, rune(c))\n	}\n	return string(r)\n"))
ref("g_ports_helper", (CF, "				Address: Address{\n					Net:    nodeConfig.BaseAddress.Net,\n					SubUni: nodeConfig.BaseAddress.SubUni | p.SwOut[i]&0x0f,\n				},\n", "				Address: nodeConfig.BaseAddress.port(p.SwOut[i]),\n"), (CF, "				Address: Address{\n					Net:    nodeConfig.BaseAddress.Net,\n					SubUni: nodeConfig.BaseAddress.SubUni | p.SwIn[i]&0x0f,\n				},\n", "				Address: nodeConfig.BaseAddress.port(p.SwIn[i]),\n"), (CF, "", "\nfunc (a Address) port(sw uint8) Address {\n	return Address{Net: a.Net, SubUni: a.SubUni&0xf0 | sw&0x0f}\n}\n"))
ref("g_ports_min", (CF, "	for i := 0; i < int(p.NumPorts) && i < 4; i++ {\n		if p.PortTypes[i].Output", "	n := int(p.NumPorts)\n	if n > len(p.PortTypes) {\n		n = len(p.PortTypes)\n	}\n	for i := 0; i < n; i++ {\n		if p.PortTypes[i].Output"))
ref("g_ports_range", (CF, "	for i := 0; i < int(p.NumPorts) && i < 4; i++ {\n		if p.PortTypes[i].Output", "	for i := range p.PortTypes {\n		if i >= int(p.NumPorts) {\n			break\n		}\n		if p.PortTypes[i].Output"))
ref("g_two_loops", (CF, "		if p.PortTypes[i].Input() {\n			nodeConfig", "	}\n	for i := 0; i < 4 && i < int(p.NumPorts); i++ {\n		if p.PortTypes[i].Input() {\n			nodeConfig"))
ref("g_reply_loops", (CF, "	for i := 0; i < 4; i++ {\n		if len(c.InputPorts) > i {\n			p.SwIn[i] = c.InputPorts[i].Address.SubUni & 0x0f\n			p.GoodInput[i] = c.InputPorts[i].Status\n		}\n		if len(c.OutputPorts) > i {\n			p.SwOut[i] = c.OutputPorts[i].Address.SubUni & 0x0f\n			p.GoodOutput[i] = c.OutputPorts[i].Status\n		}\n	}\n", "	for i, in := range c.InputPorts {\n		if i > 3 {\n			break\n		}\n		p.SwIn[i] = in.Address.SubUni & 0x0f\n		p.GoodInput[i] = in.Status\n	}\n	for i, out := range c.OutputPorts {\n		if i > 3 {\n			break\n		}\n		p.SwOut[i] = out.Address.SubUni & 0x0f\n		p.GoodOutput[i] = out.Status\n	}\n"))
ref("g_reply_clip", (CF, "	for i := 0; i < 4; i++ {\n		if len(c.InputPorts) > i {\n			p.SwIn[i]", "	for i := 0; i < len(p.SwIn); i++ {\n		if i < len(c.InputPorts) {\n			p.SwIn[i]"))
ref("g_numports_max", (CF, "	if len(c.InputPorts) > len(c.OutputPorts) {\n		return uint16(len(c.InputPorts))\n	}\n	return uint16(len(c.OutputPorts))\n", "	n := len(c.OutputPorts)\n	if len(c.InputPorts) > n {\n		n = len(c.InputPorts)\n	}\n	return uint16(n)\n"))
ref("g_types_alt", (CF, "		tmp := code.PortType(0)\n		if len(c.InputPorts) > i {\n			tmp = tmp.WithInput(true)\n			rsl[i] = tmp.WithType(c.InputPorts[i].Type.Type())\n		}\n		if len(c.OutputPorts) > i {\n			tmp = tmp.WithOutput(true)\n			rsl[i] = tmp.WithType(c.OutputPorts[i].Type.Type())\n		}\n", "		if i < len(c.InputPorts) {\n			rsl[i] = rsl[i].WithInput(true).WithType(c.InputPorts[i].Type.Type())\n		}\n		if i < len(c.OutputPorts) {\n			rsl[i] = rsl[i].WithOutput(true).WithType(c.OutputPorts[i].Type.Type())\n		}\n"))
ref("g_name_helper", (CF, "	copy(p.ShortName[0:17], c.Name)\n	copy(p.LongName[0:63], c.Description)\n", "	setName(p.ShortName[:], c.Name)\n	setName(p.LongName[:], c.Description)\n"), (CF, "", "\nfunc setName(dst []byte, s string) {\n	if len(s) > len(dst)-1 {\n		s = s[:len(dst)-1]\n	}\n	copy(dst, s)\n}\n"))

DEC = "	for _, c := range b {\n		if c == 0 {\n			return\n		}\n		str += string(c)\n	}\n	return\n"
ref("g_decode_index", (CF, DEC, "	if i := bytes.IndexByte(b, 0); i >= 0 {\n		b = b[:i]\n	}\n	for _, c := range b {\n		str += string(rune(c))\n	}\n	return str\n"), (CF, "import (\n", "import (\n	\"bytes\"\n"))
ref("g_decode_plain", (CF, DEC, "	if i := bytes.IndexByte(b, 0); i >= 0 {\n		b = b[:i]\n	}\n	return string(b)\n"), (CF, "import (\n", "import (\n	\"bytes\"\n"))
ref("g_decode_builder", (CF, DEC, "	var sb strings.Builder\n	for _, c := range b {\n		if c == 0 {\n			break\n		}\n		sb.WriteRune(rune(c))\n	}\n	return sb.String()\n"), (CF, "import (\n", "import (\n	\"strings\"\n"))
ref("g_decode_bytes", (CF, DEC, "	n := 0\n	for n < len(b) && b[n] != 0 {\n		n++\n	}\n	return string(b[:n])\n"))
ref("g_decode_i", (CF, DEC, "	for i := 0; i < len(b); i++ {\n		if b[i] == 0 {\n			break\n		}\n		str += string(rune(b[i]))\n	}\n	return str\n"))
ref("g_decode_while", (CF, DEC, "	for len(b) > 0 && b[0] != 0 {\n		str += string(rune(b[0]))\n		b = b[1:]\n	}\n	return str\n"))
ref("g_decode_buf", (CF, DEC, "	out := make([]byte, 0, len(b))\n	for _, c := range b {\n		if c == 0 {\n			break\n		}\n		out = append(out, c)\n	}\n	return string(out)\n"))
# ref("g_decode_split", (CF, DEC, "	return string(bytes.SplitN(b, []byte{0}, 2)[0])\n"), (CF, "import (\n", "import (\n	\"bytes\"\n"))
ref("g_decode_trim", (CF, DEC, "	s := string(b)\n	if i := strings.IndexByte(s, 0); i >= 0 {\n		s = s[:i]\n	}\n	return s\n"), (CF, "import (\n", "import (\n	\"strings\"\n"))

# ---- C26: constructors and universe addresses
AI = "	return int(uint16(a.Net)<<8 | uint16(a.SubUni))\n"
AS = "	return fmt.Sprintf(\"%d:%d.%d\", a.Net, a.SubUni>>4, a.SubUni&0x0f)\n"
bug("n_int_xor", "C26", (CF, AI, "	return int(uint16(a.Net&0x7f)<<8 | uint16(a.SubUni))\n"))
bug("n_int_shift", "C26", (CF, AI, "	return int(uint16(a.Net<<4)<<4 | uint16(a.SubUni))\n"))
bug("n_int_sign", "C26", (CF, AI, "	return int(int16(uint16(a.Net)<<8 | uint16(a.SubUni)))\n"))
bug("n_str_mask", "C26", (CF, AS, "	return fmt.Sprintf(\"%d:%d.%d\", a.Net, a.SubUni>>4&0x07, a.SubUni&0x0f)\n"))
bug("n_str_swap", "C26", (CF, AS, "	return fmt.Sprintf(\"%d:%d.%d\", a.Net, a.SubUni&0x0f, a.SubUni>>4)\n"))
bug("n_str_hex", "C26", (CF, AS, "	return fmt.Sprintf(\"%d:%x.%x\", a.Net, a.SubUni>>4, a.SubUni&0x0f)\n"))
bug("n_ctrl_style", "C26", ("controller.go", "NewNode(name, code.StController, ip, log)", "NewNode(name, code.StNode, ip, log)"))
bug("n_name_trunc", "C26", ("node.go", "			Name: name,\n", "			Name: name[:min1(len(name), 17)],\n"), ("node.go", "// NewNode return a Node\n", "func min1(a, b int) int {\n	if a < b {\n		return a\n	}\n	return b\n}\n\n// NewNode return a Node\n"))
bug("n_ip_default", "C26", ("node.go", "		//ip = GenerateIP()\n", "		//ip = GenerateIP()\n		ip = net.IPv4zero\n"))
bug("n_style_norm", "C26", ("node.go", "			Type: style,\n", "			Type: style & 0x03,\n"))
bug("n_pkt_shared", "C26", ("packet/artsync.go", "	return &ArtSyncPacket{}\n", "	return syncPacket\n"), ("packet/artsync.go", "// NewArtSyncPacket", "var syncPacket = &ArtSyncPacket{}\n\n// NewArtSyncPacket"))
bug("n_pkt_preset", "C26", ("packet/artdmx.go", "	return &ArtDMXPacket{}\n", "	return &ArtDMXPacket{Sequence: 1}\n"))
ref("n_int_plus", (CF, AI, "	return int(a.Net)*256 + int(a.SubUni)\n"))
ref("n_int_or", (CF, AI, "	n := int(a.Net) << 8\n	n |= int(a.SubUni)\n	return n\n"))
ref("n_int_be", (CF, AI, "	return int(binary.BigEndian.Uint16([]byte{a.Net, a.SubUni}))\n"), (CF, "import (\n", "import (\n	\"encoding/binary\"\n"))
ref("n_str_helpers", (CF, AS, "	return fmt.Sprintf(\"%d:%d.%d\", a.Net, a.subnet(), a.universe())\n"), (CF, "// Integer returns", "func (a Address) subnet() uint8   { return a.SubUni >> 4 }\nfunc (a Address) universe() uint8 { return a.SubUni & 0x0f }\n\n// Integer returns"))
ref("n_str_div", (CF, AS, "	return fmt.Sprintf(\"%v:%v.%v\", a.Net, a.SubUni/16, a.SubUni%16)\n"))
ref("n_str_itoa", (CF, AS, "	return strconv.Itoa(int(a.Net)) + \":\" + strconv.Itoa(int(a.SubUni>>4)) + \".\" + strconv.FormatUint(uint64(a.SubUni&0x0f), 10)\n"), (CF, "import (\n", "import (\n	\"strconv\"\n"), (CF, "	\"fmt\"\n", "	\"fmt\"\n"))
ref("n_cfg_after", ("node.go", "		Config: NodeConfig{\n			Name: name,\n			Type: style,\n		},\n", ""), ("node.go", "	n.Config.IP = ip\n", "	n.Config = NodeConfig{Name: name, Type: style, IP: ip}\n"))
ref("n_pkt_new", ("packet/artdmx.go", "	return &ArtDMXPacket{}\n", "	return new(ArtDMXPacket)\n"))

# ---- C14, C15, C25: locks, deadlocks, crashes
CT, ND = "controller.go", "node.go"
SD_LOCK = "	c.nodeLock.Lock()\n	defer c.nodeLock.Unlock()\n\n	var cn *ControlledNode\n	var ok bool\n\n	if cn, ok = c.OutputAddress[address]; !ok {\n		c.log.With(Fields{\"address\": address.String()}).Error(\"could not find node for address\")\n		return\n	}\n"
bug("l_send_early", "C14", (CT, SD_LOCK, "	c.nodeLock.Lock()\n	cn, ok := c.OutputAddress[address]\n	c.nodeLock.Unlock()\n	if !ok {\n		c.log.With(Fields{\"address\": address.String()}).Error(\"could not find node for address\")\n		return\n	}\n"))
bug("l_send_fast", "C14", (CT, SD_LOCK, "	if _, known := c.OutputAddress[address]; !known {\n		return\n	}\n" + SD_LOCK))
bug("l_gc_len", "C14", (CT, "func (c *Controller) gcNode() {\n", "func (c *Controller) gcNode() {\n	if len(c.Nodes) == 0 {\n		return\n	}\n"))
bug("l_gc_log", "C14", (CT, "			c.gcNode()\n", "			c.gcNode()\n			c.log.With(Fields{\"nodes\": len(c.Nodes)}).Debug(\"cleaned up\")\n"))
bug("l_upd_touch", "C14", (CT, "			if err := c.updateNode(cfg); err != nil {\n", "			for _, n := range c.Nodes {\n				if n.Node.Name == cfg.Name {\n					n.LastSeen = time.Now()\n				}\n			}\n			if err := c.updateNode(cfg); err != nil {\n"))
bug("l_start_tables", "C14", (CT, "	c.nodeLock.Lock()\n	c.Nodes = nil\n", "	c.Nodes = nil\n"), (CT, "	c.InputAddress = make(map[Address]*ControlledNode)\n	c.nodeLock.Unlock()\n", "	c.InputAddress = make(map[Address]*ControlledNode)\n"))
bug("l_loop_send", "C25", (CT, "		select {\n		case c.cNode.sendCh <- netPayload{\n			address: node.UDPAddress,", "		c.nodeLock.Unlock()\n		defer c.nodeLock.Lock()\n		select {\n		case c.cNode.sendCh <- netPayload{\n			address: node.UDPAddress,"))
bug("l_shut_flag", "C14", (ND, "			num, err := n.conn.WriteToUDP(", "			if n.shutdown {\n				return\n			}\n			num, err := n.conn.WriteToUDP("))
bug("l_stop_late", "C14", (CT, "	c.cNode.Stop()\n	close(c.shutdownCh)\n", "	c.cNode.Stop()\n	close(c.shutdownCh)\n	for a := range c.OutputAddress {\n		delete(c.OutputAddress, a)\n	}\n"))
bug("l_delete_goroutine", "C14", (CT, "			// remove node\n			c.Nodes = append(", "			go func(cn *ControlledNode) {\n				cn.Sequence = 0\n			}(c.Nodes[i])\n			// remove node\n			c.Nodes = append("))
bug("l_buf_escape", "C14", (CT, "	err := cn.setDMXBuffer(dmx, address)\n", "	buf := cn.DMXBuffer[address]\n	go func() {\n		if buf != nil {\n			buf.Stale = true\n		}\n	}()\n	err := cn.setDMXBuffer(dmx, address)\n"))
bug("k_send_err", "C15", (CT, "	c.nodeLock.Lock()\n	defer c.nodeLock.Unlock()\n\n	var cn *ControlledNode\n", "	c.nodeLock.Lock()\n\n	var cn *ControlledNode\n"), (CT, "		c.log.With(Fields{\"address\": address.String()}).Error(\"could not find node for address\")\n		return\n", "		c.nodeLock.Unlock()\n		c.log.With(Fields{\"address\": address.String()}).Error(\"could not find node for address\")\n		return\n"), (CT, "error setting buffer on address\")\n		return\n	}\n", "error setting buffer on address\")\n		return\n	}\n	c.nodeLock.Unlock()\n"))
bug("k_gc_delete", "C15", (CT, "			// remove node\n			c.Nodes = append(c.Nodes[:i], c.Nodes[i+1:]...)\n			goto start\n", "			// remove node\n			c.deleteNode(c.Nodes[i].Node)\n			goto start\n"))
bug("k_order", "C15", (CT, "	cn.nodeLock.Lock()\n	defer cn.nodeLock.Unlock()\n\n	if buf, ok = cn.DMXBuffer[address]; !ok {\n		return nil,", "	cn.nodeLock.Lock()\n	defer cn.nodeLock.Unlock()\n	if cn.owner != nil {\n		cn.owner.nodeLock.Lock()\n		defer cn.owner.nodeLock.Unlock()\n	}\n\n	if buf, ok = cn.DMXBuffer[address]; !ok {\n		return nil,"), (CT, "	nodeLock  sync.Mutex\n", "	nodeLock  sync.Mutex\n	owner     *Controller\n"), (CT, "		Sequence:   0,\n", "		Sequence:   0,\n		owner:      c,\n"))
bug("k_continue", "C15", (CT, "			c.nodeLock.Lock()\n			for address, node := range c.OutputAddress {\n", "			c.nodeLock.Lock()\n			if len(c.OutputAddress) == 0 {\n				continue\n			}\n			for address, node := range c.OutputAddress {\n"))
bug("k_return", "C15", (CT, "			c.nodeLock.Unlock()\n\n		case <-c.shutdownCh:\n			return\n", "			select {\n			case <-c.shutdownCh:\n				return\n			default:\n			}\n			c.nodeLock.Unlock()\n\n		case <-c.shutdownCh:\n			return\n"))
bug("k_wait", "C15", (CT, "		select {\n		case c.cNode.sendCh <- netPayload{\n			address: node.UDPAddress,\n			data:    b,\n		}:\n		case <-c.shutdownCh:\n		}\n", "		c.cNode.sendCh <- netPayload{\n			address: node.UDPAddress,\n			data:    b,\n		}\n"))
bug("k_callback", "C15", (ND, "	callback, ok := n.callbacks[p.GetOpCode()]\n", "	n.shutdownLock.Lock()\n	defer n.shutdownLock.Unlock()\n	callback, ok := n.callbacks[p.GetOpCode()]\n"))
bug("k_write", "C15", (ND, "			if n.isShutdown() {\n				return\n			}\n\n			num, err := n.conn.WriteToUDP(payload.data, &payload.address)\n", "			n.shutdownLock.Lock()\n			if n.shutdown {\n				n.shutdownLock.Unlock()\n				return\n			}\n			num, err := n.conn.WriteToUDP(payload.data, &payload.address)\n			n.shutdownLock.Unlock()\n"))
bug("k_start", "C15", (CT, "	if err := c.cNode.Start(); err != nil {\n", "	c.nodeLock.Lock()\n	if err := c.cNode.Start(); err != nil {\n"), (CT, "	c.gcTicker = time.NewTicker(pollInterval)\n", "	c.gcTicker = time.NewTicker(pollInterval)\n	c.nodeLock.Unlock()\n"))
bug("k_stop_twice", "C15", (CT, "	if !c.running {\n		// never started, or stopped already\n		return\n	}\n", "	if !c.running {\n		// never started, or stopped already\n		c.shutdownLock.Unlock()\n		return\n	}\n"))
bug("x_from_nil", "C25", (ND, "\"src\": from.String(), \"bytes\": num}).Errorf", "\"src\": from.IP.String(), \"bytes\": num}).Errorf"))
bug("x_assert", "C25", (ND, "	poll, ok := p.(*packet.ArtPollPacket)\n	if !ok {\n		n.log.With(Fields{\"packet\": p}).Debugf(\"unknown packet type\")\n		return\n	}\n", "	poll := p.(*packet.ArtPollPacket)\n	if poll.TalkToMe.Diagnostics() {\n		n.log.With(Fields{\"packet\": p.(*packet.ArtDiagDataPacket)}).Debugf(\"diagnostics\")\n	}\n"))
bug("x_log_opcode", "C25", (ND, "			p, err := packet.Unmarshal(payload.data)\n", "			n.log.With(Fields{\"op\": fmt.Sprintf(\"%02x%02x\", payload.data[9], payload.data[8])}).Debugf(\"decoding\")\n			p, err := packet.Unmarshal(payload.data)\n"))
bug("x_log_name", "C25", (CT, "			cfg := ConfigFromArtPollReply(p)\n", "			cfg := ConfigFromArtPollReply(p)\n			c.log.With(Fields{\"initial\": cfg.Name[:1]}).Debug(\"poll reply\")\n"))
bug("x_first_port", "C25", (CT, "				// we don't care for controllers which do not have output ports for now // @todo\n", "				c.log.With(Fields{\"port\": cfg.InputPorts[0].Address.String()}).Debug(\"ignored controller\")\n				// we don't care for controllers which do not have output ports for now // @todo\n"))
bug("x_ip4", "C25", (CF, "	copy(p.IPAddress[0:4], c.IP.To4())\n", "	ip := c.IP.To4()\n	p.IPAddress = [4]byte{ip[0], ip[1], ip[2], ip[3]}\n"))
bug("x_div", "C25", (CT, "	fpsInterval := time.Second / time.Duration(c.maxFPS)\n", "	fpsInterval := time.Second / time.Duration(c.maxFPS)\n	c.log.With(Fields{\"ticks\": time.Second / time.Duration(len(c.cNode.Config.InputPorts))}).Debug(\"started\")\n"))
bug("x_buf_nil", "C25", (CT, "				if node.DMXBuffer[address] == nil {\n					node.DMXBuffer[address] = &dmxBuffer{}\n				}\n", ""), (CT, "				if c.Nodes[i].DMXBuffer[port.Address] == nil {\n					c.Nodes[i].DMXBuffer[port.Address] = &dmxBuffer{}\n				}\n", ""))
bug("x_gc_index", "C25", (CT, "			goto start\n", "			c.log.With(Fields{\"next\": c.Nodes[i].Node.Name}).Debug(\"next\")\n			goto start\n"))
bug("x_gc_nogoto", "C25", (CT, "			c.Nodes = append(c.Nodes[:i], c.Nodes[i+1:]...)\n			goto start\n", "			c.Nodes = append(c.Nodes[:i], c.Nodes[i+1:]...)\n"), (CT, "start:\n", ""))
bug("x_maps_late", "C25", (CT, "	c.OutputAddress = make(map[Address]*ControlledNode)\n", ""))
bug("x_fps", "C25", (CT, "	fpsInterval := time.Second / time.Duration(c.maxFPS)\n", "	fpsInterval := time.Duration(1000/c.maxFPS) * time.Millisecond\n"))
bug("x_validate", "C25", (CF, "func (c NodeConfig) validate() error {\n", "func (c NodeConfig) validate() error {\n	if c.InputPorts[0].Type.Input() {\n		return fmt.Errorf(\"x\")\n	}\n"))

ref("l_send_unlock", (CT, SD_LOCK, "	c.nodeLock.Lock()\n	cn, ok := c.OutputAddress[address]\n	if !ok {\n		c.nodeLock.Unlock()\n		c.log.With(Fields{\"address\": address.String()}).Error(\"could not find node for address\")\n		return\n	}\n	defer c.nodeLock.Unlock()\n"))
ref("l_with_lock", (CT, "func (c *Controller) gcNode() {\n	c.nodeLock.Lock()\n	defer c.nodeLock.Unlock()\n", "func (c *Controller) withLock(f func()) {\n	c.nodeLock.Lock()\n	defer c.nodeLock.Unlock()\n	f()\n}\n\nfunc (c *Controller) gcNode() {\n	c.withLock(c.gcNodeLocked)\n}\n\nfunc (c *Controller) gcNodeLocked() {\n"))
ref("l_rw", (CT, "	InputAddress  map[Address]*ControlledNode\n	nodeLock      sync.Mutex\n", "	InputAddress  map[Address]*ControlledNode\n	nodeLock      sync.RWMutex\n"))
ref("l_tick_fn", (CT, "			now := time.Now()\n			// send DMX buffer update\n			c.nodeLock.Lock()\n", "			tick(time.Now())\n\n		case <-c.shutdownCh:\n			return\n		}\n	}\n}\n\nfunc (c *Controller) refresh(now time.Time, fpsInterval, forceUpdate time.Duration, update func(node *ControlledNode, address Address, now time.Time) error) {\n			c.nodeLock.Lock()\n			defer c.nodeLock.Unlock()\n"), (CT, "			c.nodeLock.Unlock()\n\n		case <-c.shutdownCh:\n			return\n		}\n	}\n}\n\n// updateNode will", "}\n\n// updateNode will"), (CT, "	// loop until shutdown\n	for {\n		select {\n		case <-ticker.C:\n", "	tick := func(now time.Time) { c.refresh(now, fpsInterval, forceUpdate, update) }\n\n	// loop until shutdown\n	for {\n		select {\n		case <-ticker.C:\n"))
ref("x_len_guard", (ND, "			p, err := packet.Unmarshal(payload.data)\n", "			if len(payload.data) > 9 {\n				n.log.With(Fields{\"op\": fmt.Sprintf(\"%02x%02x\", payload.data[9], payload.data[8])}).Debugf(\"decoding\")\n			}\n			p, err := packet.Unmarshal(payload.data)\n"))
ref("x_ip4", (CF, "	copy(p.IPAddress[0:4], c.IP.To4())\n", "	if ip := c.IP.To4(); ip != nil {\n		p.IPAddress = [4]byte{ip[0], ip[1], ip[2], ip[3]}\n	}\n"))
