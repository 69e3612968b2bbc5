package redo

import "github.com/zbdba/db-recovery/recovery/utils"

// Specification functions: redo log files.

// SpecFileBad: a redo file that cannot be opened, or that ends within the four header blocks.
func SpecFileBad(name string) bool {
	return utils.SpecFileMissing(name) || len(utils.SpecFile(name)) < 2048
}

// SpecPayload: the payload of the blocks of a file from offset off on, up to the first block
// that is incomplete, empty or malformed.
func SpecPayload(file string, off int) string {
	if len(file)-off < 512 {
		return ""
	}
	n := int(file[off+4])<<8 | int(file[off+5])
	if n < 12 || n > 512 {
		return ""
	}
	if n > 508 {
		n = 508
	}
	return file[off+12:off+n] + SpecPayload(file, off+512)
}

// SpecPayloads: the payloads of the first k files.
func SpecPayloads(names []string, k int) string {
	if k <= 0 {
		return ""
	}
	return SpecPayloads(names, k-1) + SpecPayload(utils.SpecFile(names[k-1]), 2048)
}

// SpecAnyBad: one of the first k files is bad.
func SpecAnyBad(names []string, k int) bool {
	return govcEx(0, k, func(i int) bool { return SpecFileBad(names[i]) })
}
