// Runs a list of assembler jobs in one process, through the library interface of armips.
// usage: libdriver JOBS RESULTS
// JOBS: one job per line, fields separated by a blank, every field hex encoded (a lone '-' is empty)
//   cli DIR arg...                     runFromCommandLine
//   lib DIR silent abs eow input temp sym symver equs labels   runArmips in FILE mode; equs/labels: name=value;...
//   mem DIR silent abs eow content temp sym symver equs labels base   runArmips in MEMORY mode
// RESULTS: per job "rc N", "out HEX", "err HEX"*, "mem ADDR HEX"*, "end"
#include "Core/Assembler.h"
#include "Core/FileManager.h"
#include "Core/Misc.h"
#include "Core/SymbolData.h"
#include "Main/CommandLineInterface.h"

#include <clocale>
#include <cstdio>
#include <cstring>
#include <fcntl.h>
#include <iostream>
#include <fstream>
#include <map>
#include <sstream>
#include <unistd.h>

static std::string unhex(const std::string& s)
{
	std::string r;
	if (s == "-") return r;
	for (size_t i = 0; i + 1 < s.size(); i += 2) r.push_back((char) strtol(s.substr(i,2).c_str(),nullptr,16));
	return r;
}

static std::string hex(const std::string& s)
{
	static const char* d = "0123456789abcdef";
	std::string r;
	for (unsigned char c: s) { r.push_back(d[c >> 4]); r.push_back(d[c & 15]); }
	return r.empty() ? "-" : r;
}

// the kind of file an embedding program hands in: a window on its memory
class MemoryFile: public AssemblerFile
{
public:
	MemoryFile(int64_t base): base(base), pos(base) { }
	bool open(bool onlyCheck) override { opened = !onlyCheck; pos = base; return true; }
	void close() override { opened = false; }
	bool isOpen() override { return opened; }
	bool write(void* data, size_t length) override
	{
		if (!opened) return false;
		for (size_t i = 0; i < length; i++) bytes[pos+(int64_t)i] = ((unsigned char*)data)[i];
		pos += length;
		return true;
	}
	int64_t getVirtualAddress() override { return pos; }
	int64_t getPhysicalAddress() override { return pos-base; }
	int64_t getHeaderSize() override { return base; }
	bool seekVirtual(int64_t a) override { if (a < base) { Logger::queueError(Logger::Error, "Seeking to virtual address with negative physical address"); return false; } pos = a; return true; }
	bool seekPhysical(int64_t a) override { if (a < 0) { Logger::queueError(Logger::Error, "Seeking to negative physical address"); return false; } pos = a+base; return true; }
	bool hasFixedVirtualAddress() override { return true; }
	const fs::path& getFileName() override { return name; }
	std::map<int64_t,unsigned char> bytes;
private:
	fs::path name = "memory";
	int64_t base, pos;
	bool opened = false;
};

static void pairs(const std::string& text, std::vector<std::pair<std::string,std::string>>& out)
{
	std::stringstream ss(text);
	std::string item;
	while (std::getline(ss,item,'\n'))
	{
		size_t e = item.find('=');
		if (e != std::string::npos) out.emplace_back(item.substr(0,e),item.substr(e+1));
	}
}

int main(int argc, char* argv[])
{
	std::setlocale(LC_CTYPE, "");
	if (argc < 3) return 3;

	std::ifstream jobs(argv[1]);
	std::ofstream results(argv[2],std::ios::binary|std::ios::trunc);
	std::string capture = std::string(argv[2])+".cap";
	int original = dup(1);

	std::string line;
	while (std::getline(jobs,line))
	{
		std::stringstream ss(line);
		std::vector<std::string> f;
		std::string x;
		while (ss >> x) f.push_back(f.empty() ? x : unhex(x));
		if (f.size() < 3) continue;
		if (chdir(f[1].c_str()) != 0) return 4;

		std::cout.flush(); fflush(stdout);
		int fd = open(capture.c_str(),O_CREAT|O_TRUNC|O_WRONLY,0666);
		dup2(fd,1); ::close(fd);

		int rc;
		std::vector<std::string> errors;
		std::shared_ptr<MemoryFile> memory;
		if (f[0] == "cli")
		{
			std::vector<std::string> args { "armips" };
			args.insert(args.end(),f.begin()+2,f.end());
			rc = runFromCommandLine(args);
		}
		else
		{
			ArmipsArguments a;
			a.silent = f[2] == "1";
			a.useAbsoluteFileNames = f[3] == "1";
			a.errorOnWarning = f[4] == "1";
			a.errorsResult = &errors;
			a.tempFileName = fs::u8path(f[6]);
			a.symFileName = fs::u8path(f[7]);
			a.symFileVersion = atoi(f[8].c_str());
			std::vector<std::pair<std::string,std::string>> l;
			pairs(f[9],l);
			for (auto& p: l) { EquationDefinition d; d.name = Identifier(p.first); d.value = p.second; a.equList.push_back(d); }
			l.clear(); pairs(f[10],l);
			for (auto& p: l) { LabelDefinition d; d.name = Identifier(p.first); d.value = strtoll(p.second.c_str(),nullptr,0); a.labels.push_back(d); }
			if (f[0] == "mem")
			{
				a.mode = ArmipsMode::MEMORY;
				a.content = f[5];
				memory = std::make_shared<MemoryFile>(strtoll(f[11].c_str(),nullptr,0));
				a.memoryFile = memory;
			}
			else
			{
				a.mode = ArmipsMode::FILE;
				a.inputFileName = a.useAbsoluteFileNames ? fs::absolute(fs::u8path(f[5])) : fs::u8path(f[5]);
			}
			rc = runArmips(a) ? 0 : 1;
		}

		std::cout.flush(); fflush(stdout);
		dup2(original,1);
		std::ifstream in(capture,std::ios::binary);
		std::stringstream out; out << in.rdbuf();
		results << "rc " << rc << "\nout " << hex(out.str()) << "\n";
		for (auto& e: errors) results << "err " << hex(e) << "\n";
		if (memory)
		{
			int64_t start = 0, next = 0;
			std::string run;
			for (auto& b: memory->bytes)
			{
				if (!run.empty() && b.first != next) { results << "mem " << start << " " << hex(run) << "\n"; run.clear(); }
				if (run.empty()) start = b.first;
				run.push_back((char) b.second);
				next = b.first+1;
			}
			if (!run.empty()) results << "mem " << start << " " << hex(run) << "\n";
		}
		results << "end" << std::endl;
	}
	return 0;
}
