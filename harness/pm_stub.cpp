// BaseFilter::sendEvent asks the pipeline manager to deliver events: here to the filters a driver registers.
#include "PipelineManager.hh"
#include <map>
std::map<int, BaseFilter*> stubFilters;
PipelineManager* PipelineManager::pipeMngrInstance = NULL;
PipelineManager* PipelineManager::getInstance(const unsigned) { static char mem[sizeof(PipelineManager)]; return (PipelineManager*)mem; }
bool PipelineManager::processFilterEvent(Event e, int id) { if (!stubFilters.count(id)) return false; stubFilters[id]->pushEvent(e); return true; }
