package server

import (
	"crypto/rsa"
	"math/big"
)

// Fixed RSA keys and self-signed certificates: 0 server, 1 client, 2 user, 3 a server whose private exponent is one byte shorter than its modulus.
var vpKeys = []struct{ n, d, p, q, cert string }{
	{"\xb1\x8c\xe8\x5a\xec\x39\x4e\xd4\xca\xe5\x55\x1e\x6a\x87\x62\xd5\xb4\x1f\xa4\x2a\xae\xd3\x9d\x4d\xa3\x83\x29\x20\x44\x08\xba\x02\x6f\x37\x91\x3b\x0f\x21\x5a\x02\xdd\x4c\xa5\x81\x45\x7d\x9f\xd3\x78\x77\xeb\x68\x3f\x35\xf3\x5e\xa9\xd4\xc0\x2b\xf2\xff\x34\x7d\x6c\x95\x94\x96\xd5\xfb\x35\x48\x8d\x41\xbb\xe5\xb9\x74\xf6\x58\xb3\x59\xd6\x6b\xac\xec\x06\x8c\x02\xd3\x87\x1d\x55\xe3\x4d\x3a\xeb\x59\x15\x50\x76\xee\xbb\x34\x75\x18\xde\xca\xb7\x05\x2a\x41\x4c\x8a\xb8\xf4\x16\xf4\xa8\x14\x1b\x30\x3c\xf9\x21\x02\x4a\x7c\x49\x6f\x93\x35\x88\xb0\xc3\xfc\xb6\xf5\x36\xf6\xed\x76\xf7\x39\xd4\x9d\xad\xb6\x66\xda\xd2\x2c\xb1\xc7\xea\x48\xab\xaa\x60\x4b\x58\x7d\xb1\xc7\xb8\x67\x25\x95\x07\xc1\x07\x65\x61\xd6\x66\x62\x7d\x76\xf0\x40\x27\x54\xda\x0d\xdb\xfa\xf3\x76\x4d\xf8\xb3\x9a\x66\x27\xf5\xcb\x97\x4a\x68\xba\x73\xdd\x5e\x54\x2a\x10\xaf\xc2\x63\x68\x8e\x3e\xbc\xf4\xb6\xff\x10\xb2\x37\x0b\x74\xf7\xc8\xda\x2a\x6e\x14\x0f\x6b\xaa\xf7\xf3\x4e\x92\x58\x9f\x30\x24\xbf\x34\x32\x66\x2b\xdf\x9a\x9f\x92\x91\xb8\xa8\xb1\x93\x6a\x55\xa9\x61", "\x26\x8c\x1d\x9c\x33\xe2\x23\x4b\xce\xbb\x28\x96\x40\x71\xa1\x53\x1d\x56\xab\x49\x3b\x08\xa5\x83\xc8\x26\xbf\x44\x8a\x90\xcc\x75\x9f\xd8\xd4\x16\x9a\xeb\xd6\x43\x7d\xf1\x58\x93\x6e\xd7\x5d\xde\x47\x2e\xdd\xf4\x95\x98\xac\x7c\x56\x69\xe2\xc9\x07\xea\x41\x66\xa3\xae\xfc\x02\x1d\x75\xfb\x35\x03\xba\x0c\x45\xcd\x54\x67\xf1\x8d\x0a\xc9\xa3\x39\xf9\x4a\x58\x96\x7a\x7f\x40\xae\xb7\x79\x3a\x7c\x03\x2c\xbd\xf9\xfc\x4d\xb7\x8f\x5e\xb5\x6c\x14\x7d\x32\x15\xd8\x3c\xdb\xf7\xde\x8e\x02\x79\xcf\x07\x53\x8d\x91\x0d\x92\xc6\xf9\x62\xb4\x17\xc6\xbf\x2e\xa5\xbe\x29\x68\x2a\x6e\xa8\x21\x0a\xd7\xd8\x22\xed\xd2\x69\xbe\x57\xa6\x79\xd3\xfb\x37\xc3\xfc\x8a\x20\x6f\x33\x09\x4e\xd6\x5f\xd2\x2c\x54\xbc\x7b\xca\x50\xd3\xd2\x0f\x91\xb9\x10\xd3\x49\xc5\x60\x96\xf5\x65\x9a\x46\xca\x31\xf7\x21\x86\x7a\xaa\x2d\xce\x92\x12\xad\x57\x8b\x3e\xf5\x7a\xf7\x95\xc7\xdf\xbd\x5e\xc1\xdb\xf3\xf6\xd8\xb2\xac\xfd\xfa\x07\x97\x20\xa3\xa7\xdb\xbc\x2a\xa1\x7f\xab\x9f\xba\x89\xd1\x5f\x67\x30\xde\xd2\xf6\x05\x5a\x7d\x18\xb8\x64\xa4\xa6\x91\xd7\x60\xb5\x46\xb3", "\xc9\xef\xee\x6b\x82\x2f\xac\x25\xbe\x9a\xf0\x13\x9a\x4c\x0e\xe7\x74\x6d\xd2\x48\x46\x48\x66\x7d\x8d\xef\xff\xf7\xdd\x1b\x16\xe6\x63\x14\x52\x2c\x8c\x75\x7d\xbf\x15\x4f\xa2\x6d\xd3\xd4\x99\xa1\x90\xba\xa6\x24\x14\x58\xe4\x20\x19\xa8\xb4\x7e\xee\x9e\x76\x74\x25\xa9\x89\x63\x48\xfc\x18\x4b\x03\x03\x5d\x34\xd8\x3a\xac\x94\xd4\x57\x1d\x23\x74\x72\x59\x7b\x1e\x04\x82\x2a\x87\xf0\xad\x25\x88\x9c\xeb\x9a\xa7\xb7\xb4\x68\xa8\xe3\x23\x3d\x84\xf7\x3f\x63\x7d\x23\xe6\x97\x3f\x05\x21\xba\x99\x3a\x5f\x54\xf6\x5c\xf9\x1f", "\xe1\x15\x97\x04\x40\x26\xcd\x48\x30\x47\x3c\x44\x3e\x06\x9d\x2b\x61\x46\x9c\xb8\x38\xab\xcf\xd4\x70\xd9\x8d\xa7\xdd\xb2\x44\x4a\xa5\x4e\x1b\x65\xea\xdd\x08\xab\x0a\xd0\x97\xfd\xf4\x5a\x4c\xe0\x87\x9f\xc0\x6c\xb0\xb1\x1e\xa5\xb4\x2e\x04\x91\xe8\x7f\x5a\x15\x72\x90\x52\x78\x13\x90\xfc\x66\x21\xa7\xd2\xad\x00\xc8\x78\xe2\xf4\x9d\x6c\xb5\x23\x60\xfb\xf5\x04\x21\x64\x5e\xd3\x2e\x53\xfd\x57\x87\x21\xb5\x69\xce\x9b\xcc\xa7\x23\x8b\x59\x63\x6a\x4e\xb9\x42\x28\x4f\xba\x13\xd8\xe1\xe5\x58\x3e\xfb\xfb\x63\x00\x8d\x7f", "\x30\x82\x02\xb8\x30\x82\x01\xa0\xa0\x03\x02\x01\x02\x02\x01\x01\x30\x0d\x06\x09\x2a\x86\x48\x86\xf7\x0d\x01\x01\x0b\x05\x00\x30\x11\x31\x0f\x30\x0d\x06\x03\x55\x04\x03\x13\x06\x73\x65\x72\x76\x65\x72\x30\x20\x17\x0d\x32\x30\x30\x31\x30\x31\x30\x30\x30\x30\x30\x30\x5a\x18\x0f\x32\x31\x30\x30\x30\x31\x30\x31\x30\x30\x30\x30\x30\x30\x5a\x30\x11\x31\x0f\x30\x0d\x06\x03\x55\x04\x03\x13\x06\x73\x65\x72\x76\x65\x72\x30\x82\x01\x22\x30\x0d\x06\x09\x2a\x86\x48\x86\xf7\x0d\x01\x01\x01\x05\x00\x03\x82\x01\x0f\x00\x30\x82\x01\x0a\x02\x82\x01\x01\x00\xb1\x8c\xe8\x5a\xec\x39\x4e\xd4\xca\xe5\x55\x1e\x6a\x87\x62\xd5\xb4\x1f\xa4\x2a\xae\xd3\x9d\x4d\xa3\x83\x29\x20\x44\x08\xba\x02\x6f\x37\x91\x3b\x0f\x21\x5a\x02\xdd\x4c\xa5\x81\x45\x7d\x9f\xd3\x78\x77\xeb\x68\x3f\x35\xf3\x5e\xa9\xd4\xc0\x2b\xf2\xff\x34\x7d\x6c\x95\x94\x96\xd5\xfb\x35\x48\x8d\x41\xbb\xe5\xb9\x74\xf6\x58\xb3\x59\xd6\x6b\xac\xec\x06\x8c\x02\xd3\x87\x1d\x55\xe3\x4d\x3a\xeb\x59\x15\x50\x76\xee\xbb\x34\x75\x18\xde\xca\xb7\x05\x2a\x41\x4c\x8a\xb8\xf4\x16\xf4\xa8\x14\x1b\x30\x3c\xf9\x21\x02\x4a\x7c\x49\x6f\x93\x35\x88\xb0\xc3\xfc\xb6\xf5\x36\xf6\xed\x76\xf7\x39\xd4\x9d\xad\xb6\x66\xda\xd2\x2c\xb1\xc7\xea\x48\xab\xaa\x60\x4b\x58\x7d\xb1\xc7\xb8\x67\x25\x95\x07\xc1\x07\x65\x61\xd6\x66\x62\x7d\x76\xf0\x40\x27\x54\xda\x0d\xdb\xfa\xf3\x76\x4d\xf8\xb3\x9a\x66\x27\xf5\xcb\x97\x4a\x68\xba\x73\xdd\x5e\x54\x2a\x10\xaf\xc2\x63\x68\x8e\x3e\xbc\xf4\xb6\xff\x10\xb2\x37\x0b\x74\xf7\xc8\xda\x2a\x6e\x14\x0f\x6b\xaa\xf7\xf3\x4e\x92\x58\x9f\x30\x24\xbf\x34\x32\x66\x2b\xdf\x9a\x9f\x92\x91\xb8\xa8\xb1\x93\x6a\x55\xa9\x61\x02\x03\x01\x00\x01\xa3\x19\x30\x17\x30\x15\x06\x03\x55\x1d\x11\x04\x0e\x30\x0c\x86\x0a\x75\x72\x6e\x3a\x73\x65\x72\x76\x65\x72\x30\x0d\x06\x09\x2a\x86\x48\x86\xf7\x0d\x01\x01\x0b\x05\x00\x03\x82\x01\x01\x00\x87\x55\x05\x5f\x24\xbc\x58\x89\xc4\x33\x94\x96\x0d\xc2\x92\xa2\x01\xae\xee\xe9\xa0\x7d\x93\x46\x56\xbc\x09\x6f\x3f\xf3\xe5\xb9\x67\x7f\x08\x3f\x0b\xa6\x3b\xc8\x3a\x83\x2f\xc4\x3e\xf2\x2a\x01\xad\xdb\x48\xd9\x7d\xd3\xdc\xd4\x1d\xe1\x8f\x5d\xe7\x43\xae\xd1\xd5\x70\xc9\xa2\x70\xd0\x3a\x75\xff\xb5\xce\x90\xc9\x0b\x47\xc4\xd3\x07\x3a\x5a\x7f\x9e\x07\x30\x6e\x65\x07\x12\xf5\x85\xee\x9d\x25\x6d\xa9\x2e\xe4\x2e\x18\xdf\x5a\x35\x3d\xc1\x44\xff\xfb\x35\xc7\x84\x17\x8b\xd9\xc7\x94\xbe\x00\x86\xe4\xf9\x3a\xe4\x74\xe1\x8b\xde\x11\xab\xf3\xf9\x82\x04\x9e\x1a\x3d\x2d\x99\x12\xa9\xe2\xb0\xa7\x06\x9e\x0e\xd4\x6d\xca\xd1\xb9\x2a\x26\x1e\xa0\x67\x67\x27\x61\x2e\xef\x9e\xaf\x6f\x2a\x51\x6c\xc9\xf8\x8d\x08\x66\x73\x0b\x0b\x6e\x59\x54\x26\x06\x6d\x70\xeb\x85\xc7\x56\xfb\x0a\x39\xe8\xa9\x33\x44\xcf\x3c\x92\x68\x31\x28\xc7\x9f\xac\x75\x56\x1d\x21\xfe\xf3\x83\x87\x1c\x17\x22\x86\xc8\x32\x50\x07\x9a\x9b\x57\x3e\x99\x42\xe6\x38\xcd\xb8\x9c\x99\xc6\x36\xd4\x3a\xd7\xf9\x3d\x44\x51\xf5\x6b\xa2\x7a\x6c\x2a\x3a\x6c\x3e\xa1\x39\x6c\x4c\x8e"},
	{"\xc1\x3b\xba\xab\xd2\xc4\x5b\xd5\x52\x65\x20\x26\x47\x31\x7c\x5f\x99\x57\xc7\x79\x97\x16\x34\xa6\xa5\xa1\x63\x08\xc8\xc1\x5e\xe4\x5f\x29\x0a\xd4\x1e\x0d\x5a\x84\x9a\x7e\x14\x83\x7e\xf8\xce\xf0\xe0\x15\x4c\x60\xc7\x57\x99\x50\x2e\x58\xfd\x43\xfb\x36\x23\x74\x35\xe9\x31\x3e\x28\x0b\x5c\xb2\x90\x2d\xfa\x14\xc9\xc6\x7b\x3a\x03\x95\x4a\xcc\x87\x47\xc5\x8d\xac\x03\xd7\x2d\xcd\x3b\x3c\x7c\x2e\xa6\x2e\xef\x9f\x61\x44\xe7\x97\x26\x47\xec\xc8\xac\x4b\xd9\xba\x4d\x5a\x9b\x35\xea\xcf\x53\x91\x19\x52\xdc\x5b\xf2\x03\xed\x47\xee\x1b\x83\x0a\xfd\xa1\xa5\x4e\xad\x0f\x57\xb7\x94\x39\x18\x44\x23\x20\xfa\x1b\x16\x83\xa7\x2b\xaf\x81\xd0\x69\x99\x7c\xe1\x84\x12\xd2\xb3\x4d\x30\xf9\x4d\x27\x11\xb2\x9a\x4e\x01\x68\x7a\xba\xaa\xce\xdc\x0c\xe8\x9f\x37\xe3\xe1\x4a\xdb\x1d\x1b\x4d\x3f\x57\x49\xe5\x07\x46\x3c\x80\xa1\x6f\xbb\x90\x77\xe2\x38\xa3\x5c\x3e\x69\xbd\x63\xc1\x09\x04\x60\x50\xdb\x4a\x71\x90\xc7\xd2\xf5\xc2\x90\xa3\xb9\x47\x89\x93\xcb\xf7\x3d\x66\x45\xa8\x7b\x56\xaf\xeb\x6b\x95\x87\x22\x53\xd8\xe2\xcf\x46\xc0\xa6\x4a\x91\x26\x11", "\x2f\x5d\x95\x41\xe5\xfd\xa4\xe7\x12\xf5\xdf\xde\x12\x28\x72\xac\xba\x59\x56\x77\x9b\x0d\xe1\xe5\x11\x87\x90\x4f\x88\x6a\x41\xf8\xe7\xcc\x97\x2f\x6c\x98\x68\x5e\x45\xc2\x6f\x03\xd6\x9d\x65\x98\x8c\xcd\x1b\xb6\x43\x56\xd9\x29\x5a\xdb\x0c\x65\xdc\x0f\xa6\xbc\x27\x34\xdc\x91\xb8\x5e\x24\xa0\x4e\x90\x3e\x93\x56\xec\x74\xab\x41\x52\x98\x8d\xaf\x01\x6c\x4e\xf0\x61\xd6\x9e\x8f\x06\x9c\xaa\x72\x02\xe1\x51\x72\x77\x74\xdc\xf1\xe3\x7b\xd0\xf2\x55\xad\x98\x16\xbf\x3c\x5c\xfc\x67\xec\xdf\x36\x9b\x87\x00\xa5\xf7\x1a\x77\xe3\xc5\x20\x25\x5a\x6f\x78\xe5\xdc\x1f\x31\xd5\x0f\xb0\x9e\xa7\x93\x6b\x61\xa4\x47\x20\xa2\xe0\x03\x0f\x7d\x48\x2c\x6b\x58\x58\x9b\xa3\x2a\xef\xe0\x88\x93\x6b\x9a\xcc\x54\xb9\x72\xc0\xbf\x1d\xc0\x70\x4c\x54\x83\x79\x32\xcd\x37\x47\xca\x44\xc6\xe4\x90\xc8\xee\x9a\x34\xaf\x48\xf5\x15\x84\x01\x2a\x86\x73\xf7\xbb\xa5\x3e\xcf\x28\x90\x76\x35\x50\xf1\x50\x70\xb2\x01\x75\xe3\xfb\x75\xd5\x8a\xf1\xe0\x73\xa1\xed\x0e\xe0\x38\xfe\x52\x47\x44\xd1\x2c\x40\x8f\x62\x0b\xd2\x97\x23\x14\xdd\xdf\x2e\x60\x15\x57\x38\x3c\x73", "\xe6\x6d\x34\x40\xac\x06\xca\xff\x1e\xaa\xd8\x84\x7f\xd3\x7a\x16\xf5\x4f\x20\xbf\x6b\x49\x09\x7b\xf0\x00\x48\x92\x5d\xdf\xb3\xaf\x1c\xe0\xd4\x9f\xf7\xce\x26\x27\x5a\xb3\x53\x10\x4a\x8c\x1e\xe9\xb0\x6b\xb4\x32\xdf\xd7\x4f\x29\xc1\x45\x0d\xb2\x02\x70\x34\x6a\x98\xba\x04\x52\xfd\xe4\xda\xc1\x9a\xae\x66\x13\x84\x53\x73\x9a\x29\xb5\xda\xf0\x8f\xaa\xa2\xd2\x37\xfa\xc8\xa6\x98\x93\x35\xe5\x34\xf8\x12\x11\xa6\xff\x96\x3c\x28\x4a\x20\x8c\xb7\xf8\x17\x9b\x11\x6b\x43\xc7\xbf\x50\x5a\xa5\xa6\x31\x18\x2b\xcb\x53\x1b\x27", "\xd6\xad\xcd\xbf\x17\x43\x98\x80\x9c\x56\xcd\x49\x53\x47\x70\x08\x47\x54\xbe\xb2\xe8\xe6\xde\xed\xa6\x82\x82\xa7\xe3\x4d\xeb\xa6\x97\x4b\x00\xa1\xeb\x51\x80\xdc\x48\x7e\x48\xc1\x26\xce\xfb\xdf\x2e\x1d\xfa\x35\xee\x88\x46\xd8\x80\x89\x1b\x74\x92\xc7\x57\x1d\xb1\x2e\x87\x93\x5f\x7b\xb1\xef\xb1\x81\x99\x2b\x6a\xd9\x67\x04\x1e\xc4\xa3\x9c\x65\xf6\x55\x9c\xf2\xfb\x8c\x29\x24\x90\xa9\x51\xb7\xcb\x8e\x9c\x64\xf3\xc2\x5f\x32\xcd\x94\x77\xb0\x63\x5b\x9c\x57\xdc\x34\xa3\x86\x13\xd9\xe2\xde\x22\x81\x8f\x58\x1a\x58\x07", "\x30\x82\x02\xb8\x30\x82\x01\xa0\xa0\x03\x02\x01\x02\x02\x01\x02\x30\x0d\x06\x09\x2a\x86\x48\x86\xf7\x0d\x01\x01\x0b\x05\x00\x30\x11\x31\x0f\x30\x0d\x06\x03\x55\x04\x03\x13\x06\x63\x6c\x69\x65\x6e\x74\x30\x20\x17\x0d\x32\x30\x30\x31\x30\x31\x30\x30\x30\x30\x30\x30\x5a\x18\x0f\x32\x31\x30\x30\x30\x31\x30\x31\x30\x30\x30\x30\x30\x30\x5a\x30\x11\x31\x0f\x30\x0d\x06\x03\x55\x04\x03\x13\x06\x63\x6c\x69\x65\x6e\x74\x30\x82\x01\x22\x30\x0d\x06\x09\x2a\x86\x48\x86\xf7\x0d\x01\x01\x01\x05\x00\x03\x82\x01\x0f\x00\x30\x82\x01\x0a\x02\x82\x01\x01\x00\xc1\x3b\xba\xab\xd2\xc4\x5b\xd5\x52\x65\x20\x26\x47\x31\x7c\x5f\x99\x57\xc7\x79\x97\x16\x34\xa6\xa5\xa1\x63\x08\xc8\xc1\x5e\xe4\x5f\x29\x0a\xd4\x1e\x0d\x5a\x84\x9a\x7e\x14\x83\x7e\xf8\xce\xf0\xe0\x15\x4c\x60\xc7\x57\x99\x50\x2e\x58\xfd\x43\xfb\x36\x23\x74\x35\xe9\x31\x3e\x28\x0b\x5c\xb2\x90\x2d\xfa\x14\xc9\xc6\x7b\x3a\x03\x95\x4a\xcc\x87\x47\xc5\x8d\xac\x03\xd7\x2d\xcd\x3b\x3c\x7c\x2e\xa6\x2e\xef\x9f\x61\x44\xe7\x97\x26\x47\xec\xc8\xac\x4b\xd9\xba\x4d\x5a\x9b\x35\xea\xcf\x53\x91\x19\x52\xdc\x5b\xf2\x03\xed\x47\xee\x1b\x83\x0a\xfd\xa1\xa5\x4e\xad\x0f\x57\xb7\x94\x39\x18\x44\x23\x20\xfa\x1b\x16\x83\xa7\x2b\xaf\x81\xd0\x69\x99\x7c\xe1\x84\x12\xd2\xb3\x4d\x30\xf9\x4d\x27\x11\xb2\x9a\x4e\x01\x68\x7a\xba\xaa\xce\xdc\x0c\xe8\x9f\x37\xe3\xe1\x4a\xdb\x1d\x1b\x4d\x3f\x57\x49\xe5\x07\x46\x3c\x80\xa1\x6f\xbb\x90\x77\xe2\x38\xa3\x5c\x3e\x69\xbd\x63\xc1\x09\x04\x60\x50\xdb\x4a\x71\x90\xc7\xd2\xf5\xc2\x90\xa3\xb9\x47\x89\x93\xcb\xf7\x3d\x66\x45\xa8\x7b\x56\xaf\xeb\x6b\x95\x87\x22\x53\xd8\xe2\xcf\x46\xc0\xa6\x4a\x91\x26\x11\x02\x03\x01\x00\x01\xa3\x19\x30\x17\x30\x15\x06\x03\x55\x1d\x11\x04\x0e\x30\x0c\x86\x0a\x75\x72\x6e\x3a\x63\x6c\x69\x65\x6e\x74\x30\x0d\x06\x09\x2a\x86\x48\x86\xf7\x0d\x01\x01\x0b\x05\x00\x03\x82\x01\x01\x00\x48\xd7\x28\xeb\xa7\x99\xf0\xe5\x6b\x92\x01\xd2\x62\x02\x30\x8f\x95\xe3\xe8\x61\x5c\x3c\x84\x67\x92\xe8\x1a\x07\x89\xc7\x08\xf6\xa7\xf0\xf8\x13\x0a\x07\x14\x82\x15\x66\x20\xcf\x50\xf4\xac\x67\x48\x7d\xc7\xbb\xfb\xfe\x6a\xd6\x08\x8d\x19\x79\x76\xc0\x1a\x61\xe7\x1a\x6a\x0b\x2e\x60\x69\x60\x18\x56\x8a\xb0\xfe\x65\x99\x96\x9a\x88\xe2\x19\x34\xfc\xbe\x3c\x56\x94\x60\x88\x2e\x9c\x5f\xbc\xe9\x19\x4a\xc8\x4b\xeb\xd1\x67\x3a\xc9\xac\xfd\x5c\x7a\x8a\x7d\x10\xcd\xc9\x2f\xfd\xc3\xd4\x76\xf3\x54\x8f\x2e\x9b\x7c\x31\x66\xeb\xfe\x3b\x2e\x5e\x8a\xa7\x7f\xd8\xed\x47\x6f\x9d\xbc\x29\x0e\x60\x48\x4d\xb3\xcd\xbd\xf0\xbe\xc8\x09\x81\xaa\x5e\x40\x47\xf5\x5c\x59\x84\x7d\x00\xd3\x25\x15\xde\x1c\x9a\x80\x83\x82\x7d\xce\x6d\x13\x3a\xfe\x2f\xda\xea\xac\x59\xed\xe0\x6d\xd4\xa1\x33\x51\x4f\x9f\x77\x38\xe8\x53\x86\xd4\x9a\xb6\xd0\x67\xc4\xf6\xb6\xb3\xdc\xd5\x02\x72\x94\xae\x1a\xff\xcc\xd7\x78\x7c\x21\x8b\xce\x69\xce\x82\xbd\x81\x86\x11\x88\xb7\x4f\x57\xdd\x96\xb7\x19\x90\x1f\xc6\x77\xac\xaf\xfe\x50\xf7\x7f\x4b\x52\x52\x42\x69\x95\x77\x90"},
	{"\x96\x61\x82\x5e\x00\x71\x16\x6d\x6d\xaa\x0e\x59\xac\x67\x26\xbf\x71\xcb\x50\x65\x9d\xce\x43\x1b\x2e\x7a\x44\x06\x55\xcd\xde\x13\x0d\x2e\x31\xf5\xeb\x20\x72\xdd\x3b\x88\x97\x77\x3a\x6f\xc8\x72\xed\x0d\x82\x64\x34\xa1\x8b\x41\xda\xd3\x27\x08\xf3\xae\x58\xda\x72\xaf\x7c\xc9\x37\x70\xb8\x76\x42\xe8\x0d\x61\xc6\xa4\x11\x1e\xd9\xff\x56\xc6\x21\x31\xce\xab\x11\xfc\x32\x70\x5e\xe3\xf3\x03\x20\xef\x66\xab\xb1\x9c\xc3\xfa\xfc\x02\xfd\xc9\x42\x50\x57\xfa\xb4\x5b\x14\x59\x79\x33\x92\x35\x11\xde\xbb\x29\x82\x41\x53\xe7\x80\x31\x47\x06\xe0\xbf\x98\x28\x79\x92\xc6\x33\x7a\xbb\x15\x65\xde\x3f\x80\x9e\x81\x04\xa5\x43\xb5\x9a\x72\x72\x4c\xee\xcc\xcc\x0f\x9f\xf7\x28\x76\x0f\xc4\xe6\xab\xf1\xf5\x53\x40\xee\x71\x38\xe2\x29\xb4\x34\xe5\x35\x21\x75\xfa\x8a\x23\x3b\xff\xa8\x27\x73\x01\xa8\xad\x0d\x3d\x7c\x71\x21\xc4\xcb\x6d\x4f\x77\xe9\x84\x8a\xbc\x87\x45\x3b\xa8\x24\x1e\x5a\x16\x38\x6c\x51\xc9\xa2\xe1\x0c\x62\x63\x71\xe1\xf5\x46\x7c\x46\x65\xdd\x3e\x33\xd4\x16\x71\x9b\xa3\x4b\x74\xa9\x3f\xdb\xa7\x4b\x5b\xb6\xfd\x3a\x2e\x4b\x5a\xc1", "\x08\x0c\x76\x01\x79\x52\x94\x2f\x0d\x2f\x37\x3a\x13\x76\x7d\xe6\x17\x3d\x6e\x33\x27\x76\xbd\x09\x67\xbb\xc1\x87\xa3\xf0\xb3\x27\x1f\xe3\x23\x67\x69\xcb\x40\x7a\x98\xcf\x74\x69\x3c\x3b\xc9\x65\xba\xa1\xa8\xcd\xf0\xdc\x88\x95\xe0\xbe\xc1\x18\x6d\xe5\x1c\xa5\x01\xd3\x0f\x57\x11\xb1\x90\x73\x3b\xf2\x2c\x42\x84\x72\xe4\x3b\xb0\xd2\x9a\xc9\x5b\x48\xcd\x7f\xed\xce\xd5\x6a\xf0\x43\xe6\x63\x7a\x25\x76\x15\xa5\xc4\x4c\x8a\x52\xbc\xb2\x3f\xf8\x5d\xa6\x7d\x28\xf4\x0b\x00\x72\xf2\x90\xab\xbd\xd0\xc7\x01\xaf\x68\x0c\x5e\x82\xf0\xc1\x89\x11\xfa\x5f\xba\xab\x29\x60\x23\x27\x0e\xb0\x66\xc6\xe5\x97\xb8\xdc\xe5\x73\x26\x06\x66\x4b\x88\x42\xff\x29\x0a\x8d\x07\xf5\x2c\x04\x3c\x47\xd9\x9c\x21\x40\x99\xf3\xe2\xcb\xcc\x64\xf5\x3a\x40\x63\x36\xdd\xa2\x74\xa0\x5b\x02\x09\xc1\x33\xdd\xd2\x0f\x8f\xf3\x56\x0e\xd8\xc7\xd7\x45\x7c\xe7\x89\x26\x4f\x7a\x5d\x92\xa6\x35\x7f\xcf\xa6\xe1\xb1\x6c\xfc\xd5\x1c\x09\xc1\xcf\x37\xfe\x82\xba\xe0\xc8\x50\xd6\x91\x0e\xf6\x0b\x01\xb3\x5c\x9f\x08\x5a\x9f\x3c\xd8\xfe\x8e\x4e\xf2\x23\x4a\x8b\x2b\xf2\xf3\xe5", "\xc7\x76\x02\xed\x27\x06\x0d\xdf\x7b\x54\xa1\xf4\x47\x00\x06\x82\xcd\x60\x15\x00\x48\x1b\x23\x8a\x15\xe4\x57\xd3\x32\xaf\x97\xd4\xd9\x19\xf8\xb2\x36\xbb\xba\x07\xa3\x35\x95\x1e\x2b\x1b\x73\x63\x09\x08\x05\x25\xcb\x27\x40\x52\x4b\x7e\xad\xee\x44\xcf\x4e\xe5\x34\xc8\x09\xea\xdf\x4e\x1f\x20\x88\x6f\x97\x78\x25\xc9\xa7\x32\x94\xde\xd6\xd7\xe8\xb8\xa8\x38\x47\xa6\xe8\x8a\xad\x0d\x89\xa9\x4b\x03\x3f\xbf\xa1\x10\xba\x5f\x6e\xae\xf0\xf9\xa6\x4e\x2a\x78\x1f\x3d\xfe\x95\x60\x99\xcf\xb5\x02\x6a\x4c\x37\x01\x4b\xfb\x37", "\xc1\x01\xf9\xe3\xb4\x76\x3f\x34\xf4\x82\x2a\x0c\x06\xdb\x93\x38\x43\x91\xa5\xf8\xa0\x9f\x5a\x4d\xcf\xf4\x3d\xe7\x95\xad\xd2\x6f\x75\x97\x9d\xe2\x09\xb0\x3c\xf2\x0f\x50\x7a\x58\x3a\x3c\x98\xbd\x70\xe4\x0b\xeb\xe3\xd5\x6d\x0c\x74\xc4\xfb\xbb\xe0\xe6\xfb\xcd\x91\x83\xae\x2f\xb9\x20\xf3\xaf\x58\x55\xfb\xdd\x0e\xe4\xdf\x75\xce\x7e\xf7\xed\x6a\xa0\x78\x32\xf5\xb5\xea\x17\xc4\x6d\xfd\x85\xbf\x8c\x5e\xe4\x98\xba\x14\x36\x16\x2f\x37\xfd\xd7\x32\x97\x32\x55\x4b\xb2\x66\x78\xce\xeb\xa5\x34\x6d\x05\x97\x19\xc5\x05\xc7", "\x30\x82\x02\xb2\x30\x82\x01\x9a\xa0\x03\x02\x01\x02\x02\x01\x03\x30\x0d\x06\x09\x2a\x86\x48\x86\xf7\x0d\x01\x01\x0b\x05\x00\x30\x0f\x31\x0d\x30\x0b\x06\x03\x55\x04\x03\x13\x04\x75\x73\x65\x72\x30\x20\x17\x0d\x32\x30\x30\x31\x30\x31\x30\x30\x30\x30\x30\x30\x5a\x18\x0f\x32\x31\x30\x30\x30\x31\x30\x31\x30\x30\x30\x30\x30\x30\x5a\x30\x0f\x31\x0d\x30\x0b\x06\x03\x55\x04\x03\x13\x04\x75\x73\x65\x72\x30\x82\x01\x22\x30\x0d\x06\x09\x2a\x86\x48\x86\xf7\x0d\x01\x01\x01\x05\x00\x03\x82\x01\x0f\x00\x30\x82\x01\x0a\x02\x82\x01\x01\x00\x96\x61\x82\x5e\x00\x71\x16\x6d\x6d\xaa\x0e\x59\xac\x67\x26\xbf\x71\xcb\x50\x65\x9d\xce\x43\x1b\x2e\x7a\x44\x06\x55\xcd\xde\x13\x0d\x2e\x31\xf5\xeb\x20\x72\xdd\x3b\x88\x97\x77\x3a\x6f\xc8\x72\xed\x0d\x82\x64\x34\xa1\x8b\x41\xda\xd3\x27\x08\xf3\xae\x58\xda\x72\xaf\x7c\xc9\x37\x70\xb8\x76\x42\xe8\x0d\x61\xc6\xa4\x11\x1e\xd9\xff\x56\xc6\x21\x31\xce\xab\x11\xfc\x32\x70\x5e\xe3\xf3\x03\x20\xef\x66\xab\xb1\x9c\xc3\xfa\xfc\x02\xfd\xc9\x42\x50\x57\xfa\xb4\x5b\x14\x59\x79\x33\x92\x35\x11\xde\xbb\x29\x82\x41\x53\xe7\x80\x31\x47\x06\xe0\xbf\x98\x28\x79\x92\xc6\x33\x7a\xbb\x15\x65\xde\x3f\x80\x9e\x81\x04\xa5\x43\xb5\x9a\x72\x72\x4c\xee\xcc\xcc\x0f\x9f\xf7\x28\x76\x0f\xc4\xe6\xab\xf1\xf5\x53\x40\xee\x71\x38\xe2\x29\xb4\x34\xe5\x35\x21\x75\xfa\x8a\x23\x3b\xff\xa8\x27\x73\x01\xa8\xad\x0d\x3d\x7c\x71\x21\xc4\xcb\x6d\x4f\x77\xe9\x84\x8a\xbc\x87\x45\x3b\xa8\x24\x1e\x5a\x16\x38\x6c\x51\xc9\xa2\xe1\x0c\x62\x63\x71\xe1\xf5\x46\x7c\x46\x65\xdd\x3e\x33\xd4\x16\x71\x9b\xa3\x4b\x74\xa9\x3f\xdb\xa7\x4b\x5b\xb6\xfd\x3a\x2e\x4b\x5a\xc1\x02\x03\x01\x00\x01\xa3\x17\x30\x15\x30\x13\x06\x03\x55\x1d\x11\x04\x0c\x30\x0a\x86\x08\x75\x72\x6e\x3a\x75\x73\x65\x72\x30\x0d\x06\x09\x2a\x86\x48\x86\xf7\x0d\x01\x01\x0b\x05\x00\x03\x82\x01\x01\x00\x23\x01\xc7\x7d\x46\xfb\x72\xf3\x16\x06\x33\xf9\x52\xd6\x7d\x09\xd9\xa2\x26\xe2\x8c\x6f\x10\xb5\x95\x06\xa3\xeb\x37\xaa\x4b\x09\xb8\x52\x47\xf9\x6b\x18\x88\x44\x2c\xd9\x38\x47\xb5\x6b\xfb\xb0\x2c\x2a\xb2\x91\x1b\x7e\x5e\xde\x47\xd1\xfb\x7e\x06\xb3\x40\xe2\x0e\x56\xea\x50\x76\x50\xc1\xc1\xed\x74\xce\x32\x80\x72\x3f\xe1\x85\xfe\xfc\x77\x61\xf8\x23\x67\xfc\xad\x02\x99\x83\x83\x05\xca\x7a\x97\x21\xb4\x26\xa5\x4d\xdd\x50\xb9\x9d\xc0\xb1\xd2\x8d\x43\xcf\xcd\x02\x31\x1a\x57\x12\x7f\x6e\xa1\x1a\x69\x07\x2d\x50\xf1\x08\x60\x69\x6d\x73\xc3\x01\x51\x8b\x83\xed\x66\xd4\xce\xd9\x13\x71\x96\x07\xf2\x04\x89\x88\x45\x22\x0f\x44\xe3\x93\x13\xba\xaf\xe5\x61\x73\x7c\x88\xa6\x86\xe9\xd6\xcb\x03\x5c\x3c\x4c\x7f\xc0\xf3\xbc\x0f\xb7\x9a\x5f\x15\x3f\x4c\x01\xd5\xdf\x4b\x95\x50\x13\x01\x24\x2d\xf3\x3a\xb0\x1f\xfe\x87\xb2\xd6\xf5\xd4\x05\x90\x19\x3b\x41\x71\x96\xe6\x0e\x6d\xb8\xda\x84\x8c\x2a\x9f\xa8\x92\x2e\xe6\x0a\xfb\x7b\x37\x16\xdb\xd7\x48\xf4\x31\x80\x08\x7f\x24\xc4\xf0\x7f\x12\x13\xd1\xd6\xc8\xca\xbd\x61\xef\x8c\x0d\x36\xed\x81"},
	{"\xad\xc6\x5f\x8c\x4c\x85\x79\x86\x33\x8c\x13\xac\xc2\x9a\x94\x7d\x86\xd0\xf3\x2e\xf2\x82\x33\x6a\x4e\xd3\x3f\x3c\x3f\x83\x63\xec\x5f\x0f\x51\x01\xc7\xc2\xae\x0a\x48\xfd\x4f\x7c\xd5\x48\xa7\xb8\x65\x5e\x24\x4e\xac\x23\x77\xf9\x92\x88\xef\x9a\xba\x15\xcc\x98\xf2\x0f\xe4\x53\x96\xd4\xba\x84\xae\x8f\x9f\x87\xd4\x0f\xb5\x8d\x9d\x81\x44\x6c\x12\xed\xcc\x5e\xc4\x0e\x2c\x69\x06\x77\xd4\xd2\x86\x64\x07\x24\xaa\xc8\x1c\x0e\x07\xe6\x78\xbf\x70\xbb\xb5\x69\x5b\x88\xc1\xda\x08\x34\xee\xc7\x97\x8c\xc5\x9c\xd2\x0c\x5c\xb6\x7e\xd2\x1f\xcb\xc3\xb7\x0e\xcf\x1c\x18\x58\xf7\x36\x5f\x96\x4b\xac\x03\xb6\x4c\x23\xca\xbb\xea\x78\x2d\x0f\x6f\x41\x0e\x0a\x63\x9c\x47\xaa\x30\xb7\x63\x69\x59\x29\x79\xd7\xd7\x8f\x88\x60\xee\xc1\xa2\xd9\xca\x72\x0a\x7c\x92\x73\x0e\x61\xb8\x49\xef\x1c\xfb\x99\x2b\x17\xb3\xdd\x9c\xf9\x79\xbb\xc6\x7c\xb1\x30\x1e\xf9\xad\xb6\x0f\x9a\x1a\x6d\x36\x74\x15\x9c\xb4\xca\xeb\xbc\xc5\x25\xfb\x63\xe9\x40\x8e\x0f\x2f\x6c\x1d\xb5\x08\xa4\xb0\xf3\x39\x50\x5b\x94\xd2\x9a\x45\x15\x28\x33\x8b\xe4\xe7\x90\x18\xec\xc6\x3d\x29", "\xfe\x35\xb4\x91\x09\x60\x38\xe6\x99\x81\xd1\x46\x69\x68\xb8\xd0\xe8\xe7\xc2\xd8\x6a\xeb\x0d\x4b\xf7\x04\x10\xfd\x91\xec\x23\xc1\x25\x4e\xc2\xb2\x58\x07\xf3\x92\x18\x34\x78\x93\xa5\x6f\x23\xec\x1c\x5e\x1b\xbe\xfb\x12\xe7\xef\xb0\xed\xa1\x96\x37\xa2\xac\x2b\x11\xf1\x2d\x93\x1a\x93\x18\x48\x01\x15\x19\xcb\x19\xed\xe1\x29\xc9\xbf\xd0\xd8\x48\xd8\x96\xa0\x0b\x2e\xb0\xc8\xf3\x2d\x59\xa8\x9f\xf0\xb4\x82\x6f\x53\x4d\xb7\x38\xd7\x6e\xcc\x9f\x9d\xf9\x44\xa7\x22\xe8\x72\x8c\x8e\xe2\xc0\x18\x73\x56\xa2\x92\xa4\x82\xfa\x0a\xfe\x7d\xb9\x2d\x5e\xd2\x46\x32\x6d\xd7\x4d\x4a\x23\xd3\x92\xc0\x52\xba\xa7\xa0\xca\x83\x17\x77\xb4\x08\x54\x71\x45\x72\x0a\xdb\x05\x04\x6d\xb0\xf6\xe1\x75\x27\xc9\xa5\x9e\xb9\xcb\xa2\x6d\x78\xaa\x78\x15\x31\x80\x14\xec\xe9\xf8\xce\x71\xa1\x55\x50\xcb\xbd\x03\x2a\xb4\xf0\xe5\x4f\x78\x6c\x8b\x62\xfe\x2b\x87\x3f\x7e\x3a\x10\x89\xc9\x29\x58\x9d\x8d\x99\xfb\x37\xd4\xce\x51\xe4\xb2\xdc\x64\x9b\x07\xd2\x64\x62\x91\xb4\xfe\x3a\x48\xcb\x84\x00\x5d\x4f\xd0\x6a\x77\xa2\x3e\x69\xf1\x00\x82\xce\xcc\x55\x11\x23", "\xe1\xe7\x82\x90\xa6\xfb\x7e\x3a\x3b\x83\x94\xdf\xdb\x17\x2d\x30\x52\xdc\x74\x82\xbd\x26\x95\x3e\xf1\xb5\xb5\x62\x0e\xec\xcb\x91\xc7\x69\xf7\xa5\x45\x40\xb1\x9e\x78\x6f\xec\x7a\x08\x71\x6d\xe6\xad\x75\x13\x27\xeb\x62\x7c\xd6\x35\x51\x52\x84\xc7\xff\xba\x44\x8e\xfd\x19\xdd\x3d\xaf\x96\x59\x53\x2b\x79\x6f\xf9\x00\xbd\x80\x00\x4c\xea\x07\xe9\xb9\xa0\x68\x29\xba\xec\xa7\x3c\x4f\x40\x4b\x9a\x6d\x38\xe6\x02\xb3\xc1\x96\xd1\xc0\xd2\x1b\xc2\x24\xb3\x41\x61\xe1\xf4\x4f\x7f\x44\xab\xb5\xee\xde\x4f\xb2\xe9\x63\x56\xa7", "\xc4\xec\xfb\xc2\x00\xfb\xd2\x72\xaf\x90\xfa\xf6\x1d\x1d\xf3\x0b\x3b\x25\x8f\xba\xcd\x37\x06\x47\xbc\x9b\xec\x50\x8b\x9c\x06\x35\xc5\x19\xf0\x71\xab\x49\xa1\xe8\x77\x73\x53\x55\x11\xe9\xed\xc0\x92\x93\xab\x76\xaa\x7c\xbe\xd8\x9c\xd3\x77\x81\x23\x11\xf1\x7e\x9b\x92\x33\x59\x74\xca\xb1\xd4\x5f\x06\x76\xc1\x01\x71\x58\x88\x4d\x22\x35\x21\x6a\x72\x62\x45\xbd\x1e\xe7\x9f\xbe\x38\x94\xab\x83\x03\x66\xb9\xdf\x13\xf6\x6e\x37\x51\x6f\xf5\x38\x0d\x93\x45\xbb\xe0\x16\x37\x2c\xd0\xb3\x1d\xcb\x58\x55\xb8\x49\xe3\x17\xaf", "\x30\x82\x02\xb5\x30\x82\x01\x9d\xa0\x03\x02\x01\x02\x02\x01\x04\x30\x0d\x06\x09\x2a\x86\x48\x86\xf7\x0d\x01\x01\x0b\x05\x00\x30\x10\x31\x0e\x30\x0c\x06\x03\x55\x04\x03\x13\x05\x73\x68\x6f\x72\x74\x30\x20\x17\x0d\x32\x30\x30\x31\x30\x31\x30\x30\x30\x30\x30\x30\x5a\x18\x0f\x32\x31\x30\x30\x30\x31\x30\x31\x30\x30\x30\x30\x30\x30\x5a\x30\x10\x31\x0e\x30\x0c\x06\x03\x55\x04\x03\x13\x05\x73\x68\x6f\x72\x74\x30\x82\x01\x22\x30\x0d\x06\x09\x2a\x86\x48\x86\xf7\x0d\x01\x01\x01\x05\x00\x03\x82\x01\x0f\x00\x30\x82\x01\x0a\x02\x82\x01\x01\x00\xad\xc6\x5f\x8c\x4c\x85\x79\x86\x33\x8c\x13\xac\xc2\x9a\x94\x7d\x86\xd0\xf3\x2e\xf2\x82\x33\x6a\x4e\xd3\x3f\x3c\x3f\x83\x63\xec\x5f\x0f\x51\x01\xc7\xc2\xae\x0a\x48\xfd\x4f\x7c\xd5\x48\xa7\xb8\x65\x5e\x24\x4e\xac\x23\x77\xf9\x92\x88\xef\x9a\xba\x15\xcc\x98\xf2\x0f\xe4\x53\x96\xd4\xba\x84\xae\x8f\x9f\x87\xd4\x0f\xb5\x8d\x9d\x81\x44\x6c\x12\xed\xcc\x5e\xc4\x0e\x2c\x69\x06\x77\xd4\xd2\x86\x64\x07\x24\xaa\xc8\x1c\x0e\x07\xe6\x78\xbf\x70\xbb\xb5\x69\x5b\x88\xc1\xda\x08\x34\xee\xc7\x97\x8c\xc5\x9c\xd2\x0c\x5c\xb6\x7e\xd2\x1f\xcb\xc3\xb7\x0e\xcf\x1c\x18\x58\xf7\x36\x5f\x96\x4b\xac\x03\xb6\x4c\x23\xca\xbb\xea\x78\x2d\x0f\x6f\x41\x0e\x0a\x63\x9c\x47\xaa\x30\xb7\x63\x69\x59\x29\x79\xd7\xd7\x8f\x88\x60\xee\xc1\xa2\xd9\xca\x72\x0a\x7c\x92\x73\x0e\x61\xb8\x49\xef\x1c\xfb\x99\x2b\x17\xb3\xdd\x9c\xf9\x79\xbb\xc6\x7c\xb1\x30\x1e\xf9\xad\xb6\x0f\x9a\x1a\x6d\x36\x74\x15\x9c\xb4\xca\xeb\xbc\xc5\x25\xfb\x63\xe9\x40\x8e\x0f\x2f\x6c\x1d\xb5\x08\xa4\xb0\xf3\x39\x50\x5b\x94\xd2\x9a\x45\x15\x28\x33\x8b\xe4\xe7\x90\x18\xec\xc6\x3d\x29\x02\x03\x01\x00\x01\xa3\x18\x30\x16\x30\x14\x06\x03\x55\x1d\x11\x04\x0d\x30\x0b\x86\x09\x75\x72\x6e\x3a\x73\x68\x6f\x72\x74\x30\x0d\x06\x09\x2a\x86\x48\x86\xf7\x0d\x01\x01\x0b\x05\x00\x03\x82\x01\x01\x00\x13\x4d\xc3\xe4\xa0\x56\xea\x3d\x19\xb6\x49\x92\x3e\x4e\x88\x69\x7e\xbf\xf0\x3d\x9c\x3e\x38\x1f\x79\xed\xe8\xf7\x98\xd5\x88\x69\x23\x5e\x3f\x99\x64\x72\x59\x0f\x41\x5c\x33\x36\x75\xbe\xb0\x1f\x75\x2a\x9b\x09\xcb\xb7\x75\x4d\x4f\x0d\x17\x9f\x2c\x47\x8e\x97\xce\xb1\xca\xd0\x03\x8f\x44\xc5\x31\x14\x03\x04\xe8\x55\x62\x0f\xa7\x5a\x70\xf5\x49\x9f\x88\x9e\xb2\xbe\x93\xb1\xb7\x07\x29\xdf\xeb\xc2\xcd\xd8\x77\x1a\x47\x49\xd8\x34\xc7\x9a\xe8\x5f\xd6\xa9\xad\x42\x81\xbe\x1f\x4c\xb7\xb6\x4c\x8b\xb5\xcf\x2c\xef\x5b\x6e\x6e\x20\x4b\x77\xb8\xf5\x8a\xce\x25\xae\xe0\x54\x18\x75\xfa\xe5\x0f\xde\xac\xba\x49\xeb\x51\x9d\x35\x8d\x73\x23\x5c\x55\x6d\xa4\xbb\xa3\x2f\xd2\x86\x52\xae\x40\xab\x44\x14\xb8\x8d\x01\x6d\x48\xb9\x77\xf8\xdf\x0d\xbd\x8a\x26\xb8\xcf\xa0\xc8\x3b\x1c\xc9\x91\xe6\xe2\x53\xda\xe8\x18\x81\xb6\x39\xf8\x0b\xa3\xf6\x20\xdd\x0f\xf5\xb5\xe3\xc7\x17\x0e\xb5\x61\xfa\x16\x1b\xb7\x16\x04\x14\xa0\xbe\x20\xdd\xf6\xfe\xab\xde\x44\x2d\xab\xa6\x4b\x7e\x3e\xd6\xda\x37\xb1\x85\x57\x7f\x02\x86\xe3\x11\xe8\xce\x04\xd7\xb9\xf9\xd6"},
}

// vpEdCert is a certificate without RSA key.
const vpEdCert = "\x30\x81\xc7\x30\x7b\xa0\x03\x02\x01\x02\x02\x01\x09\x30\x05\x06\x03\x2b\x65\x70\x30\x0d\x31\x0b\x30\x09\x06\x03\x55\x04\x03\x13\x02\x65\x64\x30\x20\x17\x0d\x32\x30\x30\x31\x30\x31\x30\x30\x30\x30\x30\x30\x5a\x18\x0f\x32\x31\x30\x30\x30\x31\x30\x31\x30\x30\x30\x30\x30\x30\x5a\x30\x0d\x31\x0b\x30\x09\x06\x03\x55\x04\x03\x13\x02\x65\x64\x30\x2a\x30\x05\x06\x03\x2b\x65\x70\x03\x21\x00\x28\x0d\x82\xc3\xef\x07\x09\x24\x30\xf0\x68\x4b\x46\x08\xcf\x99\xf2\x92\xeb\xae\x6c\xc9\xb0\x8f\x9c\x84\x48\xdf\x9e\xb8\x5a\xd6\x30\x05\x06\x03\x2b\x65\x70\x03\x41\x00\x73\x34\x52\xdb\xaa\x92\x0d\x44\x25\xa6\x3b\x86\xbb\x98\x4b\xfc\x72\x69\x43\xe6\x7c\x35\xe5\x35\x40\x86\xa0\x28\x5f\xbc\x48\x1d\x9a\x1b\x21\x79\x65\xa7\x1f\x8a\x8a\xa6\x71\x7d\xb7\x26\xe6\xe1\x7c\x7e\xb6\x9f\x2e\x73\x04\x10\x08\xa0\x61\x92\x13\x3b\x4a\x0b"

func vpBig(s string) *big.Int {
	return new(big.Int).SetBytes([]byte(s))
}

var vpKeyCache [4]*rsa.PrivateKey

func vpKey(i int) *rsa.PrivateKey {
	if vpKeyCache[i] != nil {
		return vpKeyCache[i]
	}
	k := vpKeys[i]
	vpKeyCache[i] = &rsa.PrivateKey{PublicKey: rsa.PublicKey{N: vpBig(k.n), E: 65537}, D: vpBig(k.d), Primes: []*big.Int{vpBig(k.p), vpBig(k.q)}}
	return vpKeyCache[i]
}

func vpCert(i int) []byte {
	return []byte(vpKeys[i].cert)
}
