/* Stand-in for <crypto/cryptodev.h> of the cryptodev-linux fork with 842 and multi-chunk support (not installed here). */
#ifndef FAKE_CRYPTODEV_H
#define FAKE_CRYPTODEV_H
#include <stdint.h>
#include <stddef.h>
#include <sys/ioctl.h>
typedef uint8_t __u8; typedef uint16_t __u16; typedef uint32_t __u32;
#define CRYPTO_842 77
#define CRYPTODEV_COMP_MAX_CHUNKS 16
#define COP_ENCRYPT 0
#define COP_DECRYPT 1
#define SIOP_FLAG_KERNEL_DRIVER_ONLY 1
struct session_op { __u32 cipher, mac, compr, keylen; __u8 *key; __u32 mackeylen; __u8 *mackey; __u32 ses; };
struct alg_info { char cra_name[64], cra_driver_name[64]; };
struct session_info_op { __u32 ses; struct alg_info cipher_info, hash_info, compr_info; __u16 alignmask; __u32 flags; };
struct crypt_op { __u32 ses; __u16 op, flags; __u32 len; __u8 *src, *dst, *mac, *iv; __u32 dlen, numchunks; __u32 *chunklens, *chunkdlens; int *chunkrets; };
#define CIOCGSESSION 0xc0010001ul
#define CIOCFSESSION 0xc0010002ul
#define CIOCCRYPT 0xc0010003ul
#define CIOCGSESSINFO 0xc0010004ul
#endif
