// Simulation seam compiled into package net through a build overlay.

package net

import "context"

var (
	// VerifDial, when set, replaces Dialer.DialContext.
	VerifDial func(ctx context.Context, d *Dialer, network, address string) (Conn, error)
	// VerifListen, when set, replaces ListenConfig.Listen and Listen.
	VerifListen func(network, address string) (Listener, error)
)
