package kache

import "context"

// VFReload is what the reload signal and the API trigger.
func (t *Kache) VFReload(ctx context.Context) error { return t.reloadConfig(ctx) }

// VFApply is what a notification of the file watcher triggers.
func (t *Kache) VFApply() { t.applyConfig() }
