#pragma once
struct PropDef { const char* id; void (*world)(); const char* fatal; };
const PropDef* all_props();
