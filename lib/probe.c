/* Layout facts of the public API, read by the analyser from this unit's constants. */
#include <stddef.h>
#include "dvbcsa/dvbcsa.h"
const unsigned long long vprobe_desc_size = sizeof(struct dvbcsa_bs_batch_s);
const unsigned long long vprobe_desc_data = offsetof(struct dvbcsa_bs_batch_s, data);
const unsigned long long vprobe_desc_len = offsetof(struct dvbcsa_bs_batch_s, len);
const unsigned long long vprobe_max_len = DVBCSA_BS_MAX_PACKET_LEN;
