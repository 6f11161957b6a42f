#pragma once
#include <stdint.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
extern "C" {
#include "osc.h"
#include "osc_mem.h"
#include "osc_atom_u.h"
#include "osc_atom_s.h"
#include "osc_atom_array_u.h"
#include "osc_atom_array_s.h"
#include "osc_message_u.h"
#include "osc_message_s.h"
#include "osc_bundle_u.h"
#include "osc_bundle_s.h"
#include "osc_message_iterator_u.h"
#include "osc_message_iterator_s.h"
#include "osc_bundle_iterator_u.h"
#include "osc_bundle_iterator_s.h"
#include "osc_timetag.h"
#include "osc_util.h"
#include "osc_strfmt.h"
#include "osc_array.h"
}
