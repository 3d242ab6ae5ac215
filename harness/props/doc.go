// Package props holds the monitors, one file per group of properties.
package props
